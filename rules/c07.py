"""C07: computeDetectionSize inverts the curves that getPODModel and getPODCLModel return."""
from sa.compare import feasible
from sa.terms import NONE, mk, ite, atom, subterms
from .common import ALL, where, spec, LINEAR, QUANT
from . import values
from .values import View


def check(chk, ctx):
    chk.rule("size", "computeDetectionSize(p, c) is the size where the POD curve equals p, followed when c is given by the size where the "
                     "confidence curve at c equals p, both searched on the range of defect sizes")
    chk.rule("range", "it raises exactly when a curve does not reach p within the range")
    chk.rule("label", "each size is labelled with the level p, and the second with c too, both in full")
    for c in ALL:
        ms = values.modes(ctx, c, thresholds=((None, None), ("n", "n")), boxes=(False,))
        for m in ms:
            for conf in (NONE, "n"):
                chk.guarded("size/%s/%s" % (m, "mean" if conf is NONE else "level"), size, chk, m, conf)


CUT = {"builtins.int", "math.floor", "numpy.floor", "math.trunc", "numpy.trunc", "numpy.int64"}
ROUND = {"builtins.round", "numpy.round", "numpy.rint", "numpy.around"}


def undescribed(t):
    if t.op == "phi":
        return ite(atom(t.a[0]), undescribed(t.a[1]), undescribed(t.a[2]))
    if t.op == "after" and t.a[1] == "setDescription":
        return undescribed(t.a[0])
    if t.op == "after":
        return mk("after", undescribed(t.a[0]), *t.a[1:])
    return t


def size(chk, m, conf):
    v = View(m)
    w = v.w
    tag = "%s/%s" % (m, "mean" if conf is NONE else "level")
    r = w.call("computeDetectionSize", confidenceLevel=conf)
    p = w.call("getPODModel", st=r.st)
    st, curve, c = p.st, NONE, r.kw["confidenceLevel"]
    if conf is not NONE:
        k = w.call("getPODCLModel", st=st, confidenceLevel=c)
        curve, st = k.value, k.st
    st.pc = w.st.pc
    level = r.kw["probabilityLevel"]
    if m.cls == QUANT:
        x = spec(w, "model_inputs", **v.d.kw("inputs", "outputs", "noise", "saturation"))
        a = w.spec("quantreg_fit", st=st, **v.fit)
        s = w.spec("quantreg_size", st=a.st, algo=a.value, cl=curve, threshold=spec(w, "model_detection", **v.data), level=level, c=c,
                   low=spec(w, "smallest", x=x), high=spec(w, "largest", x=x))
    else:
        if m.cls == LINEAR:
            low, high = spec(w, "sample_min", x=v.d.inputs), spec(w, "sample_max", x=v.d.inputs)
        else:
            low, high = spec(w, "sizes_min", sizes=v.sizes), spec(w, "sizes_max", sizes=v.sizes)
        s = w.spec("detection_size", st=st, pod=p.value, cl=curve, level=level, c=c, low=low, high=high)
    at = where(w, "computeDetectionSize")
    chk.equal("size/" + tag, w, s, undescribed(w.I.freeze(r.value, r.st)), at, st=r.st, what="detection size of %s" % m)
    label(chk, tag, w, r, c if conf is not NONE else None, at)
    if m.cls == QUANT:
        return                      # whether the root search fails is the root finder's own verdict
    chk.equal("range/" + tag, w, s.st.pc, r.st.pc, at, st=s.st, pc=w.st.pc, what="acceptance of the level by %s" % m)


def label(chk, tag, w, r, c, at):
    p = r.kw["probabilityLevel"]
    n = 0
    for e in r.events:
        if e.kind != "call" or not isinstance(e.name, str) or not e.name.endswith("setDescription") or not feasible(e.pc):
            continue
        t = w.I.freeze(e.args[-1], r.st)
        if t.op not in ("list", "tuple"):
            continue
        n += 1
        p, c = w.I.freeze(p, r.st), c and w.I.freeze(c, r.st)
        for k, x in enumerate(t.a[0]):
            have = set(subterms(x))
            ok = p in have and (not k or c in have) and (k or c is None or c not in have)
            chk.require("label/%s/%d" % (tag, k), ok, e.where, "the label does not tell the level")
            cut = [y for y in have if called(y) in CUT and not any(called(z) in ROUND for z in subterms(y)) and (p in subterms(y) or c and c in subterms(y))]
            chk.require("label/%s/%d/full" % (tag, k), not cut, e.where, "the level is truncated in the label")


def called(t):
    return t.a[0].a[0] if t.op == "call" and t.a[0].op == "ext" else None
