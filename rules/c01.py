"""C01: the curve at a confidence level is the lower bound at that level."""
from sa.rt import show
from sa.terms import num
from .common import ALL, where
from . import values


def check(chk, ctx):
    chk.rule("level", "getPODCLModel(c) is the interpolation, over the defect sizes of the POD curve, of the (1-c) quantile per defect "
                      "of the simulated POD values (quantile regression: c quantile of the simulated defects; binomial: exact bound)")
    chk.rule("default", "the confidence level of getPODCLModel defaults to 0.95")
    for c in ALL:
        chk.guarded("default/" + c, default, chk, ctx, c)
        values.each(chk, "level", values.cl, values.modes(ctx, c, **values.FEW))


def default(chk, ctx, c):
    w = ctx.world(c)
    d = w.defaults(w.method("getPODCLModel"), w.st)
    v = d.get("confidenceLevel")
    chk.require("default/" + c, v is num(0.95), where(w, "getPODCLModel"), "default confidence level is %s" % (show(v) if v is not None else None))
