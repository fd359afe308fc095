"""C16: the bootstrap resamples whole observations, refits the same model on each replica, and leaves the fitted model untouched."""
from .common import LINEAR, QUANT, where
from . import values
from .values import View


def check(chk, ctx):
    chk.rule("level", "the simulated curves are refits, with the thresholds, Box-Cox request and detection threshold of the data, of replicas "
                      "of the observations drawn with replacement, a signal staying with its input")
    chk.rule("main", "the POD curve, Box-Cox parameter and quality coefficient are the same before and after computing the confidence curve")
    for c in (LINEAR, QUANT):
        ms = [m for m in values.modes(ctx, c) if c == QUANT or m.opts["resDistFact"] == "n"]
        values.each(chk, "level", values.cl, ms)
        values.each(chk, "main", untouched, ms)


def untouched(chk, m):
    v = View(m)
    w = v.w
    after = w.call("getPODCLModel").st
    a = w.call("getPODModel", st=after)
    at = where(w, "getPODCLModel")
    chk.equal("main/getPODModel/%s" % m, w, v.pod_spec(a.st), a, at, what="POD curve after the confidence curve of %s" % m)
    a = w.call("getBoxCoxParameter", st=after)
    s = w.spec("reported_lambda", st=a.st, **v.d.kw("outputs", "noise", "saturation", "box"))
    chk.equal("main/getBoxCoxParameter/%s" % m, w, s, a, at, what="Box-Cox parameter after the confidence curve of %s" % m)
    a = w.call("getR2", st=after)
    if m.cls == QUANT:
        s = w.spec("quantreg_r2", st=a.st, quantile=a.kw["quantile"], **v.fit)
    else:
        s = w.spec("linear_r2", st=a.st, coefs=v.mle, **v.fit)
    chk.equal("main/getR2/%s" % m, w, s, a, at, what="R2 after the confidence curve of %s" % m)
