"""C18: adaptive sampling adds the announced number of points, each with the signal of the physical model at that point."""
from sa.rt import Result
from sa.terms import num, index
from .common import where, ADAPT, HITMISS
from . import values
from .values import View

ADDED = (0, 1, 2)


def check(chk, ctx):
    chk.rule("inputs", "getInputDOE(): the kept data followed by the chosen candidates (AdaptiveSignalPOD: the candidate of lowest integrated "
                       "POD variance, one per added point; AdaptiveHitMissPOD: candidates of uncertain class, never more points than announced)")
    chk.rule("outputs", "getOutputDOE(): the kept signals (classes) followed by the physical model at the added points, in the same order")
    chk.rule("model", "the metamodel (classifier) and its quality coefficient (confusion matrix) are those of the final data")
    values.each(chk, "signal", signal, values.modes(ctx, ADAPT, thresholds=((None, None), ("n", "n")), boxes=(False, True), added=ADDED))
    values.each(chk, "hitmiss", hitmiss, values.modes(ctx, HITMISS, thresholds=((None, None), ("n", "n")), added=(0, 1, 6, 11)))


def signal(chk, m):
    v = View(m)
    s = v.adaptive_state()
    values.value(chk, v, "inputs", "getInputDOE", "adaptive_inputs", state=s)
    values.value(chk, v, "outputs", "getOutputDOE", "adaptive_outputs", state=s, **v.d.kw("outputs", "noise", "saturation", "box"))
    values.value(chk, v, "model/result", "getKrigingResult", "adaptive_result", state=s)
    values.value(chk, v, "model/q2", "getQ2", "adaptive_q2", state=s, dim=v.dim)


def hitmiss(chk, m):
    v = View(m)
    w = v.w
    for k, (oid, g) in enumerate((("inputs", "getInputDOE"), ("outputs", "getOutputDOE"), ("model/classifier", "getClassifier"),
                                  ("model/confusion", "getConfusionMatrix"))):
        p = w.call(g)
        s = v.hitmiss_state(p.st)
        s = Result(index(w.I.freeze(s.value, s.st), num(k)), s.st, [], {}, [])
        chk.equal("%s/%s" % (oid, m), w, s, p, where(w, g), what="%s of %s" % (g, m))
