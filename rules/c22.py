"""C22: the coefficients of quality are those of their definition."""
from sa.terms import string, num
from . import lin, values
from .common import where, LINEAR, QUANT, CHAOS, KRIGING, ADAPT
from .lin import Fit
from .values import View


def check(chk, ctx):
    chk.rule("r2", "linear R2 = 1 - residual variance / signal variance on the fitted data")
    chk.rule("q2", "kriging Q2 = 1 - mean squared leave-one-out error / variance of the signals; chaos R2 and Q2 likewise, "
                   "leave-one-out through the leverages; quantile regression: pseudo R2 of the fit at the asked quantile")
    for m in lin.modes(ctx, factories=("n",)):
        chk.guarded("r2/%s" % m, analysis, chk, m)
    for m in lin.pod_modes(ctx):
        chk.guarded("r2/%s" % m, linear, chk, m)
    few = dict(values.FEW)
    values.each(chk, "q2", kriging, values.modes(ctx, KRIGING, **few))
    values.each(chk, "q2", chaos, values.modes(ctx, CHAOS, **few))
    values.each(chk, "r2", quantreg, values.modes(ctx, QUANT, **few))
    values.each(chk, "q2", adaptive, values.modes(ctx, ADAPT, **few))


def analysis(chk, m):
    f = Fit(m)
    f.get(chk, "r2", "getR2", "test_result", coefs=f.coefs, factory=f.factory, test=string("R2"))


def linear(chk, m):
    f = Fit(m)
    f.get(chk, "r2", "getR2", "linear_r2", coefs=f.coefs)


def kriging(chk, m):
    v = View(m)
    values.value(chk, v, "q2", "getQ2", "kriging_q2", result=v.result, transformation=v.transformation, **v.fit)


def adaptive(chk, m):
    v = View(m)
    values.value(chk, v, "q2", "getQ2", "adaptive_q2", state=v.adaptive_state(), dim=v.dim)


def chaos(chk, m):
    v = View(m)
    values.value(chk, v, "r2", "getR2", "chaos_r2", result=v.result, **v.fit)
    values.value(chk, v, "q2", "getQ2", "chaos_q2", result=v.result, **v.fit)


def quantreg(chk, m):
    v = View(m)
    p = v.w.call("getR2")
    chk.equal("r2/%s" % m, v.w, v.w.spec("quantreg_r2", st=p.st, quantile=p.kw["quantile"], **v.fit), p, where(v.w, "getR2"),
              what="pseudo R2 of %s" % m)
