"""C02: one Box-Cox transformation for signals, detection threshold, censoring thresholds and added points."""
from .common import where, LINEAR, QUANT, CHAOS, KRIGING, ADAPT, SIGNAL
from . import c23, c24, lin, values
from .values import View, THRESHOLDS

BOX = dict(boxes=(True,))


def check(chk, ctx):
    chk.rule("lambda", "getBoxCoxParameter() is the parameter estimated on the uncensored, shifted signals")
    chk.rule("pod", "the POD curve compares the transformed signals with the detection threshold moved by the same shift and parameter")
    chk.rule("level", "so does every simulated curve behind the confidence level")
    chk.rule("added", "signals of added points are transformed with the shift and parameter of the model; getOutputDOE inverts them")
    for c in SIGNAL:
        ms = list(values.modes(ctx, c, **BOX))
        values.each(chk, "lambda", parameter, ms)
        values.each(chk, "pod", values.pod, ms)
        values.each(chk, "level", values.cl, [m for m in ms if c in (LINEAR, QUANT) or not m.setters])
    chk.rule("fit", "kriging, chaos and the censored linear model are fitted on the transformed signals and thresholds")
    values.each(chk, "fit", c23.fit, lin.pod_modes(ctx, thresholds=values.THRESHOLDS[1:], boxes=(True, "f")))
    values.each(chk, "fit", c24.kriging, values.modes(ctx, KRIGING, boxes=(True, "f"), setters=("",)), "fit")
    values.each(chk, "fit", c24.chaos, values.modes(ctx, CHAOS, boxes=(True, "f"), setters=("",)), "fit")
    values.each(chk, "added", added, values.modes(ctx, ADAPT, boxes=(True, "f"), setters=("",), added=(0, 1, 2),
                                                  thresholds=((None, None), ("n", "n"))))


def parameter(chk, m):
    v = View(m)
    values.value(chk, v, "lambda", "getBoxCoxParameter", "reported_lambda", **v.d.kw("outputs", "noise", "saturation", "box"))


def added(chk, m):
    v = View(m)
    values.value(chk, v, "added", "getOutputDOE", "adaptive_outputs", state=v.adaptive_state(),
                 **v.d.kw("outputs", "noise", "saturation", "box"))
