"""C15: the summary is the methods it runs."""
from sa.compare import feasible
from sa.rt import Result, World, show
from sa.terms import num, NONE, TRUE, FALSE, string, band, bnot, index, simp, mk, subterms, truth, atom, eq_dist
from sa.project import AnalysisBroken
from .common import CHAOS, KRIGING, LINEAR, QUANT, Mode, given, where, spec, fz

SUMMARY = "PODSummary"
# key: accessor, class, factory of the residuals, uses one column only, settings handed over
METHODS = {
    "LinearGauss": ("getLinearGaussPOD", LINEAR, "normal", True, ("Verbose", "SimulationSize")),
    "LinearBinomial": ("getLinearBinomialPOD", LINEAR, None, True, ("Verbose",)),
    "LinearKernelSmoothing": ("getLinearKernelSmoothingPOD", LINEAR, "kernel", True, ("Verbose", "SimulationSize")),
    "QuantileRegression": ("getQuantileRegressionPOD", QUANT, None, True, ("Verbose", "SimulationSize")),
    "PolynomialChaos": ("getPolynomialChaosPOD", CHAOS, None, False, ("Verbose", "SimulationSize", "SamplingSize")),
    "Kriging": ("getKrigingPOD", KRIGING, None, False, ("Verbose", "SimulationSize", "SamplingSize")),
}
SETS = "-setMethodActive"


def check(chk, ctx):
    chk.rule("active", "exactly the active methods are run and available; kriging only with several inputs")
    chk.rule("report", "getResults and saveResults give, for each active method and no other, its R2 and Q2 and its detection sizes at the levels asked, under its name")
    chk.rule("isolated", "a method that cannot give a size or a graph at the levels asked does not prevent the results of the others")
    chk.rule("saved", "saveResults writes into the given file the tables of the linear analysis before those of the methods")
    chk.rule("graphs", "drawGraphs draws, saves under its own name with the given directory and extension, and returns every graph of the analysis and of each active method")
    chk.rule("method", "each accessor returns the POD object one gets by giving the data, thresholds, Box-Cox request and sizes of the summary to that class")
    for a, b, x in ((None, None, False), ("n", None, True), (None, "n", "f"), ("n", "n", True)):
        for s in ("", SETS):
            m = Mode(ctx, SUMMARY, a, b, x, setters=s)
            chk.guarded("given/%s" % m, lambda: arguments(chk, m.world(), m, None, m.world().I.freeze(m.world().field("_analysis"), m.world().st), "UnivariateLinearModelAnalysis"))
            for k in METHODS:
                chk.guarded("method/%s/%s" % (m, k), method, chk, ctx, m, k)
    offs = [()] + [(k,) for k in METHODS] + [tuple(k for k in METHODS if k != j) for j in ("LinearGauss", "Kriging")] + [
        ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing"), tuple(METHODS)]
    for a, b, x in ((None, None, False), ("n", "n", True)):
        m = Mode(ctx, SUMMARY, a, b, x)
        chk.guarded("isolated/%s" % m, isolated, chk, ctx, m)
    for off in offs:
        for a, b, x in ((None, None, False), ("n", "n", True)) + (((None, None, "f"),) if not off else ()):
            m = Mode(ctx, SUMMARY, a, b, x)
            if a is None:
                chk.guarded("active/%s-%s" % (m, "+".join(off)), active, chk, ctx, m, off)
            chk.guarded("graphs/%s-%s" % (m, "+".join(off)), graphs, chk, ctx, m, off)
            for g in ("getResults", "saveResults"):
                chk.guarded("report/%s/%s-%s" % (g, m, "+".join(off)), report, chk, ctx, m, off, g)


class Obj:
    """calls on an object other than the one of the world"""

    def __init__(self, w, obj, cls, st):
        self.w, self.obj, self.cls, self.st = w, obj, cls, st

    def call(self, method, **args):
        st = self.st.copy()
        fi = self.cls.find(method)
        if fi is None:
            raise AnalysisBroken("%s.%s" % (self.cls.name, method))
        n = len(self.w.I.events)
        v, raised, kw = self.w.I.entry(fi, st, selfv=self.obj, args=args, label="%s.%s" % (self.cls.name, method))
        return Result(v, st, raised, kw, self.w.I.events[n:])


def direct(ctx, w, k):
    """the same method, used without the summary"""
    _, cls, fact, column, settings = METHODS[k]
    st = w.st_set.copy()
    ci = ctx.project.public_class(cls)
    I = w.I
    one = w.spec("first_column" if column else "all_columns", st=st, inputs=w.kw["inputSample"])
    st = one.st
    args = {"inputSample": one.value, "outputSample": w.kw["outputSample"]}
    for n in ("detection", "noiseThres", "saturationThres", "boxCox"):
        args[n] = w.kw[n]
    if cls == LINEAR:
        args["analysis"] = NONE
        args["resDistFact"] = NONE
        if fact:
            r = w.spec("summary_" + fact, st=st)
            st, args["resDistFact"] = r.st, r.value
    n = len(I.events)
    I.quiet += 1
    try:
        o, raised, kw = I.construct(ci, st, args=args)
        for s in settings:
            fi = ci.find("set" + s)
            p = [x.arg for x in fi.node.args.args][1]
            I.entry(fi, st, selfv=o, args={p: w.call("get" + s, st=w.st_set).value}, label="direct." + s)
        I.entry(ci.find("run"), st, selfv=o, label="direct.run")
    finally:
        I.quiet -= 1
    del I.events[n:]
    return Obj(w, o, ci, st)


def method(chk, ctx, m, k):
    w = m.world()
    acc, cls, _, _, settings = METHODS[k]
    got = w.call(acc)
    at = where(w, "run")
    v = got.value
    if v.op != "ref" or w.I.refs[v.a[0]].cls is not ctx.project.public_class(cls):
        chk.unknown("method/%s/%s" % (m, k), at, "%s gives %s" % (acc, show(v, 3)[:200]))
        return
    arguments(chk, w, m, k, fz(w, got), cls)
    a, b = Obj(w, v, w.I.refs[v.a[0]].cls, got.st), direct(ctx, w, k)
    for g in ("getPODModel", "getPODCLModel", "computeDetectionSize") + tuple("get" + s for s in settings):
        oid = "method/%s/%s.%s" % (m, k, g)
        if g == "computeDetectionSize":
            p, c = mk("meta", "p"), mk("meta", "c")
            x, y = a.call(g, probabilityLevel=p, confidenceLevel=c), b.call(g, probabilityLevel=p, confidenceLevel=c)
        elif g == "getPODCLModel":
            c = mk("meta", "c")
            x, y = a.call(g, confidenceLevel=c), b.call(g, confidenceLevel=c)
        else:
            x, y = a.call(g), b.call(g)
        x.st.pc = band(x.st.pc, y.st.pc)
        chk.guarded(oid, lambda: chk.equal(oid, w, y, x, at, what="%s of the %s method" % (g, k)))


def arguments(chk, w, m, k, obj, cls, column=True, factory="normal"):
    """the object is built from the data of the summary"""
    if k is not None:
        _, _, factory, column, _ = METHODS[k]
    e = [e for e in w.run_events if e.kind == "rcall" and e.name == cls + ".__init__" and e.kw.get("self") is obj]
    oid = "given/%s/%s" % (m, k or cls)
    if len(e) != 1:
        chk.unknown(oid, where(w, "run"), "construction not found")
        return
    e = e[0]
    get = lambda n: w.I.freeze(e.kw[n], w.st)
    if "analysis" in e.kw and get("analysis") is not NONE:
        chk.unknown(oid, e.where, "built from an analysis")
        return
    want = {n: w.I.freeze(w.kw[n], w.st) for n in ("detection", "noiseThres", "saturationThres", "boxCox")}
    want["inputSample"] = spec(w, "first_column" if column else "all_columns", inputs=w.kw["inputSample"])
    want["outputSample"] = spec(w, "all_columns", inputs=w.kw["outputSample"])
    want["resDistFact"] = spec(w, "summary_" + factory) if factory else NONE
    for n in want:
        if n in e.kw:
            chk.equal(oid + "." + n, w, want[n], get(n), e.where, what="%s given to %s" % (n, k or cls))


# ------------------------------------------------------------------ which methods are run
READ = {"computeDetectionSize", "getR2", "getQ2"}
WORD = {"LinearGauss": "auss", "LinearBinomial": "hypothesis", "LinearKernelSmoothing": "ernel", "QuantileRegression": "uantile",
        "PolynomialChaos": "haos", "Kriging": "riging"}


class Run:
    """the summary with some methods deactivated"""

    def __init__(self, ctx, m, off, opaque=()):
        self.m, self.off = m, off
        self.w = w = World(ctx, SUMMARY, args=m, setters=m.setters, run=False, opaque=opaque)
        self.st = st = w.st.copy()
        self.n0 = len(w.I.refs)
        for k in off:
            w.I.entry(w.method("setMethodActive"), st, selfv=w.obj, args={"method": string(k), "activation": FALSE}, label="off." + k)
        n = len(w.I.events)
        w.I.entry(w.method("run"), st, selfv=w.obj, label="run")
        self.events = w.I.events[n:]
        self.multi = truth(fz(w, w.spec("several_inputs", st=st, inputs=w.kw["inputSample"])))
        self.active = [k for k in METHODS if k not in off]

    def obj(self, k, st=None):
        r = self.w.call(METHODS[k][0], st=self.given(True))
        return r

    def given(self, multi):
        st = self.st.copy()
        st.pc = band(st.pc, self.multi if multi else bnot(self.multi))
        return st


def active(chk, ctx, m, off):
    r = Run(ctx, m, off)
    w = r.w
    tag = "%s-%s" % (m, "+".join(off))
    at = where(w, "run")
    files = {ctx.project.public_class(METHODS[k][1]).name for k in r.active}
    for k in off:
        g = r.obj(k)
        chk.require("active/%s/%s.accessor" % (tag, k), g.st.pc is FALSE, where(w, METHODS[k][0]), "%s gives an object although the method was deactivated" % METHODS[k][0])
        cls = METHODS[k][1]
        if cls not in files:
            e = [e for e in r.events if e.kind == "rcall" and str(e.name).startswith(cls + ".")]
            chk.require("active/%s/%s.run" % (tag, k), not e, at, "the deactivated method %s is run" % k)
    if LINEAR in files:
        n = len([e for e in r.events if e.kind == "rcall" and e.name == LINEAR + ".run"])
        want = len([k for k in r.active if METHODS[k][1] == LINEAR])
        chk.require("active/%s/linear.run" % tag, n == want, at, "%d linear models are run, %d are active" % (n, want))
    for k in r.active:
        g = r.obj(k)
        ok = g.value.op == "ref" and w.I.refs[g.value.a[0]].cls is ctx.project.public_class(METHODS[k][1]) and not [x for x in g.raised if feasible(x.st.pc)]
        (chk.ok if ok else chk.bad)("active/%s/%s" % (tag, k), at, "an active method is not available: %s" % show(g.value, 3)[:200])
    chk.require("active/%s/analysis" % tag, any(e.kind == "rcall" and e.name == "UnivariateLinearModelAnalysis.__init__" or
                                               e.kind == "setattr" and e.name == "_analysis" for e in r.events), at, "the linear analysis is not run")
    g = w.call(METHODS["Kriging"][0], st=r.given(False))
    chk.require("active/%s/one input" % tag, g.st.pc is FALSE, where(w, METHODS["Kriging"][0]), "Kriging is available with one input")


# ------------------------------------------------------------------ what is reported
def leaves(t, out):
    """text, in order: strings and values printed"""
    if t.op in ("concat", "list", "tuple"):
        for x in t.a[0]:
            leaves(x, out)
    elif t.op in ("fmt", "tostr"):
        leaves(t.a[0], out)
    elif t.op == "str":
        out.append(t.a[0])
    else:
        out.append(t)
    return out


def core(t):
    """the value printed, however rounded"""
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].split(".")[-1] in ("round", "around", "float", "str", "repr") and t.a[1]:
        return core(t.a[1][0])
    if t.op in ("fmt", "tostr"):
        return core(t.a[0])
    return t


def entries(out, names):
    """values of the methods printed, each with the text before it"""
    got, label = [], ""
    for x in out:
        if isinstance(x, str):
            if any(c.isalpha() for c in x):
                label = x
            continue
        x = core(x)
        if any(y.op == "func" and y.a[0].split(".")[-1] in names for y in subterms(x)):
            got.append((label, x))
    return got


def fcall(w, r, k, name, **kw):
    """the call of an accessor of one of the objects, as the analysis writes it"""
    o = r.w.I.freeze(k, r.st) if not isinstance(k, str) else r.w.I.freeze(r.obj(k).value, r.st)
    kw = dict(kw, self=o)
    cls = w.I.refs[o.a[0]].cls.find(name).qualname
    return mk("call", mk("func", cls), (), tuple(sorted(kw.items())))


def expected(r, p, c, censored):
    """what the report says about each active method: (word of its label, object, value, index, may be missing)"""
    w = r.w
    st = r.given(True)
    analysis = w.I.freeze(w.field("_analysis", st), st)
    fit, pod = [], []
    linear = [k for k in r.active if METHODS[k][1] == LINEAR]
    if linear:
        fit.append(("Linear", fcall(w, r, analysis, "getR2"), 0))
        if censored:
            fit.append(("Linear", fcall(w, r, analysis, "getR2"), 1))
    for k in r.active:
        if k == "QuantileRegression":
            fit.append((WORD[k], fcall(w, r, k, "getR2", quantile=p), None))
        if k == "PolynomialChaos":
            fit.append((WORD[k], fcall(w, r, k, "getR2"), None))
        if k in ("PolynomialChaos", "Kriging"):
            fit.append((WORD[k], fcall(w, r, k, "getQ2"), None))
        size = fcall(w, r, k, "computeDetectionSize", probabilityLevel=p, confidenceLevel=c)
        pod += [(WORD[k], size, 0), (WORD[k], size, 1)]
    return fit, pod


def matches(x, want, i):
    """x is the wanted value; a failure of the method gives a number instead"""
    want = want if i is None else index(want, num(i))
    if x is want:
        return "always"
    if x.op == "phi":
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if core(b) is want and not any(y.op == "func" for y in subterms(a)):
                return "else" if any(y.op in ("exc", "excpos", "choice") for y in subterms(x.a[0])) else None
    return None


def report(chk, ctx, m, off, method):
    r = Run(ctx, m, off, opaque=READ)
    w = r.w
    tag = "%s-%s" % (m, "+".join(off))
    at = where(w, method)
    st = r.given(True)
    g = w.call(method, st=st)
    p, c = (w.I.freeze(g.kw[k], g.st) for k in ("probabilityLevel", "confidenceLevel"))
    if method == "getResults":
        out = leaves(g.value if g.value.op == "concat" else w.I.freeze(g.value, g.st), [])
    else:
        out = []
        for e in written(w, g):
            leaves(e, out)
    censored = not (w.kw["noiseThres"] is NONE and w.kw["saturationThres"] is NONE)
    fit, pod = expected(r, p, c, censored)
    for part, want, names in (("fit", fit, {"getR2", "getQ2"}), ("pod", pod, {"computeDetectionSize"})):
        got = entries(out, names)
        oid = "report/%s/%s.%s" % (method, tag, part)
        if len(got) != len(want) and any(y.op in ("map", "flatmap", "spread") for _, x in got for y in subterms(x)):
            chk.unknown(oid, at, "number of values not known")
            continue
        if len(got) != len(want):
            chk.bad(oid, at, "%d values of the active methods are reported, %d are prescribed" % (len(got), len(want)))
            continue
        for (label, x), (word, v, i) in zip(got, want):
            how = matches(x, v, i)
            chk.require(oid + "." + word + ("" if i is None else str(i)), how is not None, at, "prescribed %s, reported %s" % (show(v if i is None else index(v, num(i)), 4)[:200], show(x, 5)[:300]))
            chk.require(oid + "." + word + ".label", word in label or word == "Linear" and "inear" in label, at, "%s is reported under '%s'" % (show(v, 3)[:200], label.strip()[:80]))
            if part == "pod":
                chk.require(oid + "." + word + ".failure", how in ("else", None), at, "no number is reported when %s fails" % show(v, 3)[:200])


def written(w, g, always=False):
    """what is written in a file, in order"""
    out = []
    for e in g.events:
        if e.kind == "call" and isinstance(e.name, str) and e.name.split(".")[-1] in ("write", "writelines") and e.args and \
                (not always or simp(e.pc, g.st.pc) is TRUE):
            out.append(w.I.freeze(e.args[0], g.st))
    return out


# ------------------------------------------------------------------ failures, files and graphs
def isolated(chk, ctx, m):
    r = Run(ctx, m, ())
    w = r.w
    for name in ("getResults", "saveResults", "drawGraphs"):
        g = w.call(name, st=r.given(True))
        bad = [x for x in g.raised if feasible(x.st.pc)]
        chk.require("isolated/%s/%s" % (m, name), not bad, where(w, name), "an exception of %s ends %s" % (bad[0].fn if bad else "", name))
        if name == "getResults":
            a = Obj(w, w.field("_analysis", r.given(True)), ctx.project.public_class("UnivariateLinearModelAnalysis"), r.given(True)).call("getResults")
            text = w.I.freeze(a.value, a.st)
            shown = [w.I.freeze(x, g.st) for e in g.events if e.kind == "call" and e.name == "builtins.print" for x in e.args]
            ok = any(x is text or text in subterms(x) for x in shown) or text in subterms(w.I.freeze(g.value, g.st))
            chk.require("isolated/%s/%s.analysis" % (m, name), ok, where(w, name), "the results of the linear analysis are not shown")
        if name == "saveResults":
            files = [e for e in g.events if e.kind == "call" and e.name in ("builtins.open", "io.open", "codecs.open")]
            nm = w.I.freeze(g.kw["name"], g.st)
            ok = len(files) == 1 and w.I.freeze(files[0].args[0], g.st) is nm and len(files[0].args) + len(files[0].kw or {}) > 1
            chk.require("saved/%s/file" % m, ok, where(w, name), "one file of the given name is not written")
            a = Obj(w, w.field("_analysis", r.given(True)), ctx.project.public_class("UnivariateLinearModelAnalysis"), r.given(True)).call("saveResults", name=nm)
            n = lambda res: [x for e in written(w, res, always=True) for x in leaves(e, []) if not isinstance(x, str)]
            mine, theirs = n(g), n(a)
            chk.require("saved/%s/analysis" % m, len(theirs) > 0 and mine[:len(theirs)] == theirs, where(w, name), "the tables of the linear analysis are not those it saves itself")


DRAWS = {"drawPOD", "drawLinearModel", "drawResiduals", "drawResidualsDistribution", "drawResidualsQQplot", "drawBoxCoxLikelihood", "drawValidationGraph"}


def graphs(chk, ctx, m, off):
    r = Run(ctx, m, off, opaque=DRAWS)
    w = r.w
    at = where(w, "drawGraphs")
    tag = "%s-%s" % (m, "+".join(off))
    st = r.given(True)
    g = w.call("drawGraphs", st=st)
    fr = lambda v: w.I.freeze(v, g.st)
    p, c, folder, ext_ = (fr(g.kw[k]) for k in ("probabilityLevel", "confidenceLevel", "directory", "extension"))
    censored = not (w.kw["noiseThres"] is NONE and w.kw["saturationThres"] is NONE)
    analysis = fr(w.field("_analysis", st))
    want = {}
    if w.kw["boxCox"] is not FALSE:
        want[(analysis, "drawBoxCoxLikelihood", None)] = {}
    for model in ("uncensored", "censored") if censored else ("uncensored",):
        for n in ("drawLinearModel", "drawResiduals", "drawResidualsDistribution", "drawResidualsQQplot"):
            want[(analysis, n, model)] = {}
    for k in r.active:
        o = fr(r.obj(k).value)
        want[(o, "drawPOD", None)] = {"probabilityLevel": p, "confidenceLevel": c}
        if k == "QuantileRegression":
            want[(o, "drawLinearModel", None)] = {"probabilityLevel": p}
        if k in ("PolynomialChaos", "Kriging"):
            want[(o, "drawValidationGraph", None)] = {}
    result = fr(g.value)
    names = []
    for e in g.events:
        if e.kind != "opaque" or e.name.split(".")[-1] not in DRAWS:
            continue
        kw = {k: v for k, v in e.kw.items()}
        o, n = kw["self"], e.name.split(".")[-1]
        model = kw["model"].a[0] if kw.get("model") is not None and kw["model"].op == "str" else None
        key = (o, n, model)
        cls = w.I.refs[o.a[0]].cls.name
        oid = "graphs/%s/%s.%s%s" % (tag, cls, n, "" if model is None else "." + model)
        if key not in want:
            chk.bad(oid, e.where, "this graph is drawn once more, or for an inactive method")
            continue
        for k, v in want.pop(key).items():
            chk.require(oid + "." + k, kw[k] is v, e.where, "%s is %s, not the one asked" % (k, show(kw[k], 3)[:100]))
        cond = bnot(eq_dist(p, NONE)) if n == "drawLinearModel" and cls == "QuantileRegressionPOD" else TRUE
        pc = simp(simp(e.pc, st.pc), cond)
        chk.require(oid + ".drawn", pc is TRUE, e.where, "drawn only if %s" % show(pc, 5)[:200])
        f = kw["name"]
        consts = [x.a[0] for x in subterms(f) if x.op == "str"]
        chk.require(oid + ".file", folder in subterms(f) and ext_ in subterms(f) and consts, e.where, "the file %s is not in the given directory with the given extension" % show(f, 6)[:200])
        names.append((tuple(sorted(consts)), e.where))
        call = mk("call", mk("func", e.name), (), tuple(sorted(e.kw.items())))
        chk.require(oid + ".returned", index(call, num(0)) in subterms(result), e.where, "the figure is not returned")
    for (o, n, model), _ in want.items():
        chk.bad("graphs/%s/%s.%s%s" % (tag, w.I.refs[o.a[0]].cls.name, n, "" if model is None else "." + model), at, "this graph is not drawn")
    dup = [b for i, (a, b) in enumerate(names) if a in [x for x, _ in names[:i]]]
    chk.require("graphs/%s/names" % tag, not dup, dup[0] if dup else at, "two graphs are saved under the same name")
