"""C04: thresholds split the data into three parts, signals stay with their inputs, and every model is fitted on the kept part."""
from sa.terms import NONE
from .common import where, LINEAR, QUANT, ALL, KRIGING, CHAOS
from . import c23, c24, lin, values

BOTH = (("n", None), (None, "n"), ("n", "n"))


def check(chk, ctx):
    chk.rule("split", "DataHandling.filterCensoredData returns the inputs of the signals strictly between the thresholds, those at or below "
                      "the noise, those at or above the saturation, and the kept signals in the same order; a threshold not given keeps "
                      "everything on its side")
    chk.rule("pod", "with a threshold every POD curve is computed from the kept part, signals paired with their inputs")
    chk.rule("level", "and so is every simulated curve behind the confidence level")
    for a in (None, "n"):
        for b in (None, "n"):
            chk.guarded("split/%s,%s" % (a, b), split, chk, ctx, a, b)
    chk.rule("fit", "and so are the likelihood, the kriging and the chaos")
    values.each(chk, "fit", c23.fit, lin.pod_modes(ctx, thresholds=BOTH, boxes=(False,)))
    values.each(chk, "fit", c24.kriging, values.modes(ctx, KRIGING, thresholds=BOTH, boxes=(False,), setters=("",)), "fit")
    values.each(chk, "fit", c24.chaos, values.modes(ctx, CHAOS, thresholds=BOTH, boxes=(False,), setters=("",)), "fit")
    for c in ALL:
        ms = list(values.modes(ctx, c, thresholds=BOTH, boxes=(False,), setters=("",)))
        values.each(chk, "pod", values.pod, ms)
        if c in (LINEAR, QUANT):
            values.each(chk, "level", values.cl, ms)


def split(chk, ctx, a, b):
    w = ctx.world("DataHandling", setters=False)
    r = w.call("filterCensoredData", selfv=None, noiseThres=a or NONE, saturationThres=b or NONE)
    k = r.kw
    s = w.spec("censored_split", st=r.st, inputs=k["inputSample"], signals=k["signals"], noise=k["noiseThres"], saturation=k["saturationThres"])
    chk.equal("split/%s,%s" % (a, b), w, s, r, where(w, "filterCensoredData"), what="split of the data")
