"""C26: the p-values of the linear analysis are those of the named tests on the residuals of the named case."""
from sa.terms import string
from . import lin
from .lin import Fit, TESTS


def check(chk, ctx):
    chk.rule("test", "every get...PValue accessor returns the p-value of its test, computed on the residuals (defects, distribution) of the "
                     "least-squares fit, followed for censored data by the one of the maximum-likelihood fit, named accordingly")
    for m in lin.modes(ctx):
        chk.guarded("test/%s" % m, one, chk, m)


def one(chk, m):
    f = Fit(m)
    for g, t in TESTS.items():
        if t != "R2":
            f.get(chk, "test/" + g, g, "test_result", coefs=f.coefs, factory=f.factory, test=string(t))
