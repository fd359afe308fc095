"""C24: the metamodel behind a POD is the announced one, fitted on the kept and transformed data."""
from sa.terms import NONE, mk
from .common import KRIGING, CHAOS, given, spec, where
from . import values
from .values import View


def check(chk, ctx):
    chk.rule("kriging", "getKrigingResult is the Gaussian process fitted on the standardised kept inputs and their transformed signals with the "
                        "covariance model and basis given or by default, tuned from the asked number of starting points; a given result is kept")
    chk.rule("chaos", "getPolynomialChaosResult is the least-squares expansion of the transformed signals on the kept inputs, with the law, "
                      "strategies and degree given or by default; a given result is kept")
    chk.rule("defaults", "the accessors of the default covariance model, basis, law, strategies and residual law return the documented ones")
    chk.rule("coefficients", "getCoefficientDistribution is the normal law the coefficients of the confidence curve are drawn from: centred on the least-squares "
                             "coefficients, with the inverse Gram matrix times the simulated residual variance as covariance")
    values.each(chk, "coefficients", coefficients, values.modes(ctx, CHAOS))
    values.each(chk, "kriging", kriging, values.modes(ctx, KRIGING))
    values.each(chk, "chaos", chaos, values.modes(ctx, CHAOS))
    for s in ("-setKrigingResult -" + s for s in ("setCovarianceModel", "setBasis", "setInitialStartSize")):
        values.each(chk, "kriging", kriging, values.modes(ctx, KRIGING, thresholds=(("n", "n"),), boxes=(True,), setters=(s,)))
    for s in ("-setPolynomialChaosResult -" + s for s in ("setDistribution", "setAdaptiveStrategy", "setProjectionStrategy", "setDegree")):
        values.each(chk, "chaos", chaos, values.modes(ctx, CHAOS, thresholds=(("n", "n"),), boxes=(True,), setters=(s,)))


def kriging(chk, m, oid="kriging"):
    v = View(m)
    w = v.w
    if given(w, "setKrigingResult", "result") is not None:
        p = w.call("getKrigingResult")
        return chk.equal("%s/%s" % (oid, m), w, given(w, "setKrigingResult", "result"), p, where(w, "getKrigingResult"), what="kriging result of %s" % m)
    values.value(chk, v, "%s" % oid, "getKrigingResult", "kriging_result", covariance=v.cov, basis=v.basis, starts=v.starts, **v.fit)
    if oid == "kriging":
        for g, x in (("getCovarianceModel", v.cov), ("getBasis", v.basis)):
            p = w.call(g)
            chk.equal("defaults/%s/%s" % (g, m), w, x, p, where(w, g), what="%s of %s" % (g, m))


def chaos(chk, m, oid="chaos"):
    v = View(m)
    w = v.w
    r = given(w, "setPolynomialChaosResult")
    if r is not None:
        p = w.call("getPolynomialChaosResult")
        return chk.equal("%s/%s" % (oid, m), w, r, p, where(w, "getPolynomialChaosResult"), what="chaos result of %s" % m)
    degree = w.call("getDegree").value
    strategy, projection = given(w, "setAdaptiveStrategy"), given(w, "setProjectionStrategy")
    if strategy is None:
        strategy = spec(w, "default_strategy", distribution=v.law, dim=v.dim, degree=degree)
    y = spec(w, "model_signals", **v.d.kw("outputs", "noise", "saturation", "box"))
    if projection is None:
        projection = spec(w, "default_projection", inputs=v.x, signals=y)
    values.value(chk, v, "%s" % oid, "getPolynomialChaosResult", "chaos_result", inputs=v.x, signals=y, distribution=v.law, strategy=strategy,
                 projection=projection)
    if oid == "chaos":
        for g, x in (("getAdaptiveStrategy", strategy), ("getProjectionStrategy", projection), ("getDistribution", v.law)):
            p = w.call(g)
            chk.equal("defaults/%s/%s" % (g, m), w, x, p, where(w, g), what="%s of %s" % (g, m))


def coefficients(chk, m):
    v = View(m)
    values.value(chk, v, "coefficients", "getCoefficientDistribution", "chaos_coefficients", result=v.result, **v.fit)
