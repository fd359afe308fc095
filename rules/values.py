"""Prescribed values of every public observable of the POD classes, mode by mode."""
from sa.rt import meta, mk
from sa.terms import num, NONE, index
from .common import (Mode, Data, data_modes, given, spec, fz, where, calls, QUIET, LINEAR, QUANT, CHAOS, KRIGING, ADAPT, HITMISS, RESULT)

NO_RESULT = QUIET + " -setKrigingResult -setPolynomialChaosResult -setClassifierParameters"
THRESHOLDS = ((None, None), ("n", None), (None, "n"), ("n", "n"))


def modes(ctx, cls, thresholds=THRESHOLDS, boxes=(False, True, "f"), setters=("", NO_RESULT), added=(0, 1)):
    """the ways of using a class: thresholds x Box-Cox request x settings (default, all changed, given result)"""
    if cls == LINEAR:
        yield from data_modes(ctx, cls, thresholds, boxes, list(setters))
        return
    for s in list(setters) + ([RESULT[cls], RESULT[cls] + " setDistribution setDefectSizes"] if cls in RESULT else []):
        for a, b in thresholds:
            for x in (boxes if cls != HITMISS else (False,)):
                if cls == ADAPT:
                    for n in added:
                        m = Mode(ctx, cls, a, b, x, setters=s, nMorePoints=num(n))
                        m.name += "+%d" % n
                        yield m
                elif cls == HITMISS:
                    for n in added:
                        for det in (NONE, "n"):
                            for k in ("svc", "rf") if s else (None,):
                                m = Mode(ctx, cls, a, b, setters=s + (" setClassifierType=" + k if k else ""), nMorePoints=num(n), detection=det)
                                m.name += "+%d%s" % (n, "" if det is NONE else " detection")
                                yield m
                else:
                    yield Mode(ctx, cls, a, b, x, setters=s)


FEW = dict(thresholds=((None, None), ("n", "n")), boxes=(False, True))


class View:
    """one mode of one class with the settings in force"""

    def __init__(self, m):
        self.m, self.w, self.cls = m, m.world(), m.cls
        w, d = self.w, Data(self.w)
        self.d = d
        self.data = d.kw("outputs", "noise", "saturation", "box", "detection")
        self.all = dict(self.data, inputs=d.inputs)
        self.fit = d.kw("inputs", "outputs", "noise", "saturation", "box")
        self.nsim = w.call("getSimulationSize").value
        if self.cls == LINEAR:
            ev = calls(w.run_events, "scipy.optimize.fmin")
            main, boot = [e for e in ev if not e.loops], [e for e in ev if e.loops]
            self.mle = index(main[0].result, num(0)) if main else NONE
            self.boot_mle = index(boot[0].result, num(0)) if boot else NONE
            return
        if self.cls == QUANT:
            self.q = w.call("getQuantile").value
            return
        self.x = spec(w, "model_inputs", **d.kw("inputs", "outputs", "noise", "saturation"))
        self.dim = spec(w, "dimension", inputs=d.inputs)
        self.sizes = w.call("getDefectSizes").value
        self.number = spec(w, "count", x=self.sizes) if given(w, "setDefectSizes") is not None else num(10 if self.cls == ADAPT else 20)
        self.nmc = w.call("getSamplingSize").value
        law = given(w, "setDistribution")
        self.law = law if law is not None else spec(w, "uniform_inputs", inputs=self.x, sizes=self.sizes)
        if self.cls == CHAOS:
            self.result = given(w, "setPolynomialChaosResult")
            if self.result is None:
                self.result = w.call("getPolynomialChaosResult").value
                self.law = spec(w, "chaos_distribution", distribution=self.law, inputs=self.x)
            elif law is None:
                self.law = spec(w, "result_distribution", result=self.result)
        if self.cls in (KRIGING, ADAPT):
            self.cov, self.basis = given(w, "setCovarianceModel"), given(w, "setBasis")
            if self.cov is None:
                self.cov = spec(w, "default_covariance", dim=self.dim)
            if self.basis is None:
                self.basis = spec(w, "default_basis", dim=self.dim)
            self.starts = w.call("getInitialStartSize").value
        if self.cls == KRIGING:
            self.result = given(w, "setKrigingResult", "result")
            if self.result is None:
                self.result = w.call("getKrigingResult").value
                self.transformation = spec(w, "normalisation", inputs=self.x)
            else:
                self.transformation = given(w, "setKrigingResult", "transformation")
                if self.transformation is None or self.transformation is NONE:
                    self.transformation = spec(w, "no_normalisation", dim=self.dim)
        if self.cls == ADAPT:
            self.result = w.call("getKrigingResult").value
            self.transformation = spec(w, "normalisation", inputs=w.call("getInputDOE").value)
        if self.cls == HITMISS:
            self.result = w.call("getClassifier").value

    # ------------------------------------------------------------ curves
    def mc(self):
        k = dict(distribution=self.law, sizes=self.sizes, number=self.number, nmc=self.nmc)
        if self.cls in (KRIGING, ADAPT):
            return dict(k, result=self.result, transformation=self.transformation, nsim=self.nsim, **self.data)
        if self.cls == CHAOS:
            return dict(k, result=self.result, dim=self.dim, **self.all)
        return dict(k, classifier=self.result, dim=self.dim)

    def pod_spec(self, st):
        w, d = self.w, self.d
        if self.cls == LINEAR:
            if d.noise is NONE and d.saturation is NONE:
                return w.spec("linear_curve_ols", st=st, factory=d.factory, **self.all)
            return w.spec("linear_curve_censored", st=st, factory=d.factory, coefs=self.mle, **self.all)
        if self.cls == QUANT:
            return w.spec("quantreg_pod", st=st, quantiles=self.q, **self.all)
        name = {KRIGING: "kriging_curve", ADAPT: "kriging_curve", CHAOS: "chaos_curve", HITMISS: "hitmiss_curve"}[self.cls]
        return w.spec(name, st=st, **self.mc())

    def cl_spec(self, st, c):
        w, d = self.w, self.d
        if self.cls == LINEAR:
            return w.spec("linear_cl", st=st, factory=d.factory, boot_box=d.box, c=c, size=self.nsim, mle=self.mle,
                          boot_mle=self.boot_mle, **self.all)
        if self.cls == QUANT:
            return w.spec("quantreg_bound", st=st, quantiles=self.q, size=self.nsim, c=c, **self.all)
        name = {KRIGING: "kriging_cl", ADAPT: "kriging_cl", CHAOS: "chaos_cl", HITMISS: "hitmiss_cl"}[self.cls]
        return w.spec(name, st=st, c=c, **dict(self.mc(), **({"nsim": self.nsim} if self.cls == CHAOS else {})))

    def adaptive_state(self):
        return spec(self.w, "adaptive", model=self.w.kw["physicalModel"], added=self.w.kw["nMorePoints"], covariance=self.cov,
                    basis=self.basis, starts=self.starts, distribution=self.law, sizes=self.sizes, number=self.number,
                    ncand=self.w.call("getCandidateSize").value, nsim=self.nsim, nmc=self.nmc, dim=self.dim, **self.all)

    def hitmiss_state(self, st=None):
        get = lambda g: self.w.call(g).value
        return self.w.spec("hitmiss", st=st, model=self.w.kw["physicalModel"], added=self.w.kw["nMorePoints"], distribution=self.law,
                           ncand=get("getCandidateSize"), pmin=get("getPMin"), pmax=get("getPMax"), kind=get("getClassifierType"),
                           parameters=get("getClassifierParameters"), **self.d.kw("inputs", "outputs", "noise", "saturation", "detection"))


def pod(chk, m, oid="pod"):
    v = View(m)
    p = v.w.call("getPODModel")
    chk.equal("%s/%s" % (oid, m), v.w, v.pod_spec(p.st), p, where(v.w, "getPODModel"), what="POD curve of %s" % m)


def cl(chk, m, oid="level"):
    v = View(m)
    p = v.w.call("getPODCLModel")
    s = v.cl_spec(p.st, p.kw["confidenceLevel"])
    chk.equal("%s/%s" % (oid, m), v.w, s, p, where(v.w, "getPODCLModel"), what="confidence curve of %s" % m)


def each(chk, oid, fn, ms, *a):
    """one obligation per mode"""
    for m in ms:
        chk.guarded("%s/%s" % (oid, m), fn, chk, m, *a)


def value(chk, v, oid, getter, fname, what=None, **kw):
    """a public accessor returns the prescribed value"""
    p = v.w.call(getter)
    chk.equal("%s/%s" % (oid, v.m), v.w, v.w.spec(fname, st=p.st, **kw), p, where(v.w, getter), what=what or "%s of %s" % (getter, v.m))
