"""C23: with a threshold the linear model maximises the likelihood of the censored data."""
from sa.terms import subterms
from sa.rt import show
from . import lin
from .common import calls
from .lin import Fit, THRESHOLDS


def check(chk, ctx):
    chk.rule("function", "the function minimised is the opposite of the log-likelihood: density of the kept signals, probability below the noise "
                         "threshold at the defects below it, probability above the saturation threshold at the defects above it, all in the "
                         "transformed scale; NaN counts as infinite")
    chk.rule("start", "the minimisation starts at the least-squares coefficients when their likelihood is finite")
    for m in list(lin.modes(ctx, thresholds=THRESHOLDS[1:], factories=("n",))) + list(lin.pod_modes(ctx, thresholds=THRESHOLDS[1:])):
        chk.guarded("function/%s" % m, one, chk, m)


def leaves(t):
    if t.op == "phi":
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def fit(chk, m, oid="fit"):
    """the likelihood maximised is that of the kept and transformed data"""
    f = Fit(m)
    if f.fmin:
        e = f.fmin[0]
        chk.equal("%s/%s" % (oid, m), f.w, f.w.spec("likelihood_of", **f.data), f.w.I.freeze(e.args[0], f.w.st), e.where, what="likelihood of %s" % m)


def one(chk, m):
    f = Fit(m)
    w = f.w
    if not f.fmin:
        others = [e for e in calls_optimisers(w.I.events) if not e.loops]
        if others:
            return chk.unknown("function/%s" % m, others[0].where, "another optimiser is used")
        return chk.bad("function/%s" % m, m.cls, "no likelihood is maximised although a threshold is given")
    e = f.fmin[0]
    chk.equal("function/%s" % m, w, w.spec("likelihood_of", **f.data), w.I.freeze(e.args[0], w.st), e.where, what="likelihood of %s" % m)
    start = [t for t in leaves(w.I.freeze(e.args[1], w.st)) if not any(x.op == "last" for x in subterms(t))]
    if len(start) != 1:
        return chk.unknown("start/%s" % m, e.where, "starting points: %s" % ", ".join(show(t, 3)[:80] for t in start))
    chk.equal("start/%s" % m, w, w.spec("ols_start", **f.data), start[0], e.where, what="starting point of %s" % m)


def calls_optimisers(events):
    return [e for e in events if e.kind == "call" and (e.name.startswith("scipy.optimize.") or e.name.startswith("openturns.") and
            ("Optim" in e.name or e.name.endswith((".TNC", ".Cobyla", ".NLopt"))))]
