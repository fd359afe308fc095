"""C12: what the user gives is not modified."""
from sa.rt import Follow, show
from sa.terms import subterms, NONE
from sa.project import AnalysisBroken
from .common import ALL, ADAPT, CHAOS, HITMISS, KRIGING, LINEAR, QUANT, Mode, RESULT, where
from .sens import Sens

# what these return may share the memory of their first argument
SHARE = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.atleast_1d", "numpy.atleast_2d",
         "numpy.atleast_3d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.moveaxis",
         "numpy.expand_dims", "numpy.broadcast_to", "numpy.flip", "numpy.diagonal", "numpy.asfarray", "numpy.asmatrix"}
SHARE_METHODS = {"ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "diagonal"}
# external functions that write into their first argument
WRITERS = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.random.shuffle", "random.shuffle",
           "heapq.heapify", "bisect.insort", "numpy.put_along_axis"}
READS = ("get", "compute", "is", "has", "draw", "save", "print", "__", "count", "index", "format", "join", "copy", "sample")
ONLY_READ = {"predict", "predict_proba", "keys", "items", "values", "split", "strip", "startswith", "endswith", "tolist", "asPoint"}


def check(chk, ctx):
    chk.rule("data", "no statement writes into an object given by the user (data, settings, arguments), nor into an array that may share its memory")
    chk.rule("object", "the POD given to SobolIndices, PLIMean or PLIVariance, and the analysis given to a linear POD, are the same afterwards")
    for c in ALL + ["UnivariateLinearModelAnalysis", "PODSummary"]:
        for s in ("", "-setVerbose") + (("-setVerbose -" + RESULT[c],) if c in RESULT else ()):
            if s and c == "UnivariateLinearModelAnalysis":
                continue
            for box in (False, True):
                m = Mode(ctx, c, "n", "n", box if c != HITMISS else False, setters=s)
                if c == HITMISS and box:
                    continue
                chk.guarded("data/%s" % m, data, chk, ctx, m)
    for n, f in sorted(public_functions(ctx).items()):
        chk.guarded("data/%s" % n, function, chk, ctx, n, f)
    chk.guarded("object/analysis", analysis, chk, ctx)
    for c, p in (("SobolIndices", KRIGING), ("SobolIndices", CHAOS), ("PLIMean", KRIGING), ("PLIVariance", CHAOS), ("SobolIndices", ADAPT)):
        for s in ("", "-setNothing"):
            m = Sens(ctx, c, p, "", setters=s)
            chk.guarded("object/%s" % m, sens, chk, ctx, m)


def public_functions(ctx):
    m = ctx.project.modules.get("otpod._math_tools")
    return {} if m is None else {n: f for n, f in m.funcs.items() if not n.startswith("_")}


def shared(t, depth=0):
    """the parameter of a public entry point this value is, or may share memory with"""
    while t.op in ("after", "upd", "fill"):
        t = t.a[0]
    if t.op == "param":
        return t
    if depth > 30:
        return None
    if t.op == "phi":
        return shared(t.a[1], depth + 1) or shared(t.a[2], depth + 1)
    if t.op == "call":
        f = t.a[0]
        if f.op == "ext" and f.a[0] in SHARE and t.a[1]:
            return shared(t.a[1][0], depth + 1)
        if f.op == "ext" and f.a[0] == "numpy.array" and t.a[1] and any(k == "copy" for k, v in t.a[2]):
            return shared(t.a[1][0], depth + 1) if dict(t.a[2])["copy"].op in ("false", "none") else None
        if f.op == "attr" and f.a[1] in SHARE_METHODS:
            return shared(f.a[0], depth + 1)
        return None
    if t.op == "attr" and t.a[1] == "T":
        return shared(t.a[0], depth + 1)
    if t.op == "index" and sliced(t.a[1]):
        return shared(t.a[0], depth + 1)
    return None


def sliced(i):
    return i.op == "slice" or i.op == "tuple" and any(x.op == "slice" for x in i.a[0]) and all(
        x.op in ("slice", "num", "iv", "none", "ellipsis") for x in i.a[0])


def writes(events):
    """(event, value written into, what)"""
    for e in events:
        if e.kind == "setitem":
            yield e, e.recv, "item assignment"
        elif e.kind == "aug":
            t = e.recv
            if t is not None and (t.op != "param" or t.a[0].split(":")[-1] in ARRAYS):      # numbers are not written into
                yield e, t, "in-place operation"
        elif e.kind == "mutate":
            if not e.name.startswith(READS) and e.name not in ONLY_READ:
                yield e, e.recv, "." + e.name + "()"
        elif e.kind == "call":
            if e.name in WRITERS and e.args:
                yield e, e.args[0], e.name
            for k, v in (e.kw or {}).items():
                if k == "out" and e.name.startswith("numpy."):
                    yield e, v, e.name + "(out=)"


def scan(chk, oid, events, at):
    n, seen = 0, set()
    for e, t, what in writes(events):
        n += 1
        if t is None:
            continue
        p = shared(t)
        if p is not None and (e.where, what) not in seen:
            seen.add((e.where, what))
            chk.bad("%s/%s" % (oid, p.a[0].split(":")[-1]), e.where, "%s writes into the given %s" % (what, p.a[0].split(":")[-1]))
    if not seen:
        chk.ok(oid, at, "%d writes" % n)


ARRAYS = {"inputSample", "outputSample", "inputDOE", "outputDOE", "size", "quantile", "delta", "label", "defects", "signals", "parameters"}
SKIP = {"run"}


def data(chk, ctx, m):
    w = ctx.world(m.cls, args=m, setters=m.setters)
    n = len(w.I.events)
    failed = 0
    for name in sorted({x for c in w.cls.mro() for x in c.methods}):
        if name.startswith("_") or name in SKIP or w.method(name).static:
            continue
        st = w.st_new if name.startswith("set") else w.st
        try:
            w.call(name, st=st)
        except (KeyError, AttributeError, TypeError, ValueError, IndexError):
            failed += 1
    scan(chk, "data/%s" % m, w.I.events, w.cls.name)


def function(chk, ctx, n, f):
    w = ctx.world("QuantileRegressionPOD", args=Mode(ctx, QUANT, None, None), setters="")
    st = w.st_new.copy()
    k = len(w.I.events)
    w.I.entry(f, st, label=n)
    scan(chk, "data/%s" % n, w.I.events[k:], f.where)


def reach(I, root, st, old):
    """every heap cell of the object and of what it holds, as of the old state"""
    out, todo, seen = [], [root.a[0]], set()
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        for key in old.heap:
            if key[0] != r:
                continue
            out.append(key)
            for x in subterms(old.heap[key]):
                if x.op == "ref":
                    todo.append(x.a[0])
    return out


def unchanged(chk, w, root, old, new, oid, at):
    bad = 0
    keys = reach(w.I, root, new, old)
    for key in keys:
        a, b = old.heap[key], new.heap.get(key)
        if a is b:
            continue
        bad += 1
        name = key[1]
        t = w.I.freeze(b, new) if b is not None else None
        if t is not None and any(x.op in ("opaque",) for x in subterms(t)):
            chk.unknown("%s.%s" % (oid, name), at, "value not known")
        else:
            chk.bad("%s.%s" % (oid, name), at, "%s of the given object becomes %s" % (
                "content" if name == "$" else name, show(t, 3)[:200] if t is not None else "deleted"))
    extra = [k for k in new.heap if k[0] == root.a[0] and k not in old.heap and not str(k[1]).startswith("$")]
    for k in extra:
        bad += 1
        chk.bad("%s.%s" % (oid, k[1]), at, "attribute %s is added to the given object" % k[1])
    if not bad:
        chk.ok(oid, at, "%d cells" % len(keys))


def analysis(chk, ctx):
    m = Mode(ctx, LINEAR, "n", "n", True, "n", analysis=True)
    I0 = {}

    def args(I, st):
        r = m(I, st)
        I0["st"], I0["obj"] = st.copy(), r["analysis"]
        return r
    w = ctx.world(LINEAR, args=args, setters="-setVerbose")
    old, obj = I0["st"], I0["obj"]
    unchanged(chk, w, obj, old, w.st, "object/%s" % m, where(w, "run"))


def sens(chk, ctx, m):
    w = m.world()
    base = m.podmode.world()
    unchanged(chk, w, base.obj, base.st, w.st, "object/%s" % m, where(w, "run"))
    scan(chk, "data/%s" % m, w.I.events[w.n_new:], w.cls.name)
