"""C19: the linear analysis reports the least-squares and the maximum-likelihood fit of the kept data, each under its name."""
from sa.terms import num, string
from . import lin
from .lin import Fit, COEFS


def check(chk, ctx):
    chk.rule("coefficients", "getIntercept, getSlope, getStandardError: the least-squares coefficients of the kept (transformed) signals on "
                             "the kept defects, followed for censored data by those of maximum likelihood, named accordingly")
    chk.rule("residuals", "getResiduals: signals minus the fitted line, one column per case")
    chk.rule("law", "getResidualsDistribution: the factory's distribution of the residuals, one per case")
    chk.rule("given", "getInputSample, getOutputSample and the threshold accessors return the data given, untransformed and unfiltered")
    for m in lin.modes(ctx):
        chk.guarded("coefficients/%s" % m, one, chk, m)


def one(chk, m):
    f = Fit(m)
    for g, (k, label) in COEFS.items():
        f.get(chk, "coefficients/" + g, g, "coefficient", coefs=f.coefs, k=num(k), label=string(label))
    f.get(chk, "residuals", "getResiduals", "residuals_table", coefs=f.coefs)
    f.get(chk, "law", "getResidualsDistribution", "residuals_laws", coefs=f.coefs, factory=f.factory)
    w, d = f.w, f.d
    for g, v in (("getInputSample", "inputs"), ("getOutputSample", "outputs")):
        p = w.call(g)
        chk.equal("given/%s/%s" % (g, m), w, w.spec("sample", st=p.st, x=getattr(d, v)), p, what="%s of %s" % (g, m))
    for g, v in (("getNoiseThreshold", d.noise), ("getSaturationThreshold", d.saturation)):
        p = w.call(g)
        chk.equal("given/%s/%s" % (g, m), w, v, p, what="%s of %s" % (g, m))
