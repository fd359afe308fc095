"""Worlds and prescribed data of the public classes."""
from sa.rt import meta, mk, show
from sa.terms import num, NONE, band, bnot, bor, eq_dist, atom, truth, TRUE, FALSE, index
from sa.project import AnalysisBroken

SIGNAL = ["UnivariateLinearModelPOD", "QuantileRegressionPOD", "PolynomialChaosPOD", "KrigingPOD", "AdaptiveSignalPOD"]


def where(w, m):
    return "%s (%s.%s)" % (w.method(m).where, w.cls.name, m)


class Mode:
    """one way to construct and configure an object; every mode is analysed on its own

    noise, saturation: None (not given) or "n"; box: False, True or "f" (a float); factory: None or "n";
    analysis: the linear POD is built from an analysis object; setters: see Interp.call_setters
    """

    def __init__(self, ctx, cls, noise=None, saturation=None, box=False, factory=None, analysis=False, setters="", **kw):
        self.ctx, self.cls, self.analysis, self.setters = ctx, cls, analysis, setters
        c = lambda v: {None: NONE, False: FALSE, True: TRUE}.get(v, v)
        self.opts = {"noiseThres": c(noise), "saturationThres": c(saturation), "boxCox": c(box), "resDistFact": c(factory)}
        self.opts.update(kw)
        self.name = "%s[%s%s]" % (cls, ",".join(x for x in (
            "noise" if noise else "", "sat" if saturation else "", {False: "", True: "boxcox", "f": "lambda"}[box],
            "dist" if factory else "", "analysis" if analysis else "") if x), (";" + setters) if setters else "")

    def __str__(self):
        return self.name

    def __call__(self, I, st):
        own = [x.arg for x in self.ctx.project.public_class(self.cls).find("__init__").node.args.args]
        if not self.analysis:
            args = {k: v for k, v in self.opts.items() if k in own}
            if "analysis" in own:
                args["analysis"] = NONE
            for n in ("inputSample", "outputSample", "inputDOE", "outputDOE", "detection"):
                if n in own and n not in args:
                    args[n] = "n"
            return args
        ci = self.ctx.project.public_class("UnivariateLinearModelAnalysis")
        o, raised, kw = I.construct(ci, st, args={k: v for k, v in self.opts.items()})
        I.analysis_kw = kw
        args = {n: NONE for n in own if n in ("inputSample", "outputSample", "noiseThres", "saturationThres", "resDistFact")}
        args["analysis"] = o
        if "detection" in own:
            args["detection"] = "n"
        return args

    def world(self):
        return self.ctx.world(self.cls, args=self, setters=self.setters)


QUIET = "-setVerbose -setGraphActive"
LINEAR, QUANT, CHAOS, KRIGING, ADAPT, HITMISS = ("UnivariateLinearModelPOD", "QuantileRegressionPOD", "PolynomialChaosPOD",
                                                 "KrigingPOD", "AdaptiveSignalPOD", "AdaptiveHitMissPOD")
ALL = [LINEAR, QUANT, CHAOS, KRIGING, ADAPT, HITMISS]
RESULT = {KRIGING: "setKrigingResult", CHAOS: "setPolynomialChaosResult"}


def data_modes(ctx, cls, thresholds=((None, None), ("n", None), (None, "n"), ("n", "n")), boxes=(False, True, "f"), setters=None):
    """every combination of thresholds and Box-Cox request, default settings and all settings changed"""
    if setters is None:
        setters = ["", QUIET + "".join(" -" + r for c, r in RESULT.items() if c == cls)]
    for s in setters:
        for a, b in thresholds:
            for x in boxes:
                if cls == HITMISS:
                    if x is not False:
                        continue
                    yield Mode(ctx, cls, a, b, setters=s)
                elif cls == LINEAR:
                    for f in (None, "n"):
                        yield Mode(ctx, cls, a, b, x, f, setters=s)
                        yield Mode(ctx, cls, a, b, x, f, analysis=True, setters=s)
                else:
                    yield Mode(ctx, cls, a, b, x, setters=s)


class Data:
    """what the user gave: samples, thresholds, detection, Box-Cox request"""

    def __init__(self, w):
        kw = getattr(w.I, "analysis_kw", None)
        self.given = kw
        src = kw if kw is not None else w.kw
        get = lambda *n: next((src[x] for x in n if x in src), None)
        self.inputs, self.outputs = get("inputSample", "inputDOE"), get("outputSample", "outputDOE")
        self.noise, self.saturation = src["noiseThres"], src["saturationThres"]
        self.box = src.get("boxCox", FALSE)
        self.detection = w.kw.get("detection")
        self.factory = src.get("resDistFact")
        if kw is not None and self.factory is NONE:
            r = w.spec("default_factory")
            self.factory = w.I.freeze(r.value, r.st)      # an analysis assumes normal residuals by default
        if self.inputs is None or self.outputs is None:
            raise AnalysisBroken("samples of %s not found" % w.cls.name)

    def kw(self, *names):
        return {n: getattr(self, n) for n in names}

    def censored(self, w):
        """condition: a threshold was given"""
        I, st = w.I, w.st
        return bor(bnot(eq_dist(I.freeze(self.noise, st), NONE)), bnot(eq_dist(I.freeze(self.saturation, st), NONE)))


def calls(events, *names):
    return [e for e in events if e.kind == "call" and e.name in names]


def calls_end(events, *ends):
    return [e for e in events if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ends]


def given(w, setter, param=None):
    """the value given to a setter in this mode, or None when it was not called"""
    kw = getattr(w, "set_kw", {}).get(setter)
    if kw is None:
        return None
    return kw[param] if param else next(iter(kw.values()))


def fz(w, r):
    return w.I.freeze(r.value, r.st)


def spec(w, fname, **kw):
    """prescribed value, frozen"""
    return fz(w, w.spec(fname, **kw))


class Surrogate:
    """settings in force for the classes that build a surrogate model of the signal"""

    def __init__(self, w):
        self.w, self.d = w, Data(w)
        d = self.d
        k4 = d.kw("inputs", "outputs", "noise", "saturation")
        self.x = spec(w, "model_inputs", **k4)
        self.dim = spec(w, "dimension", inputs=d.inputs)
        s = given(w, "setDefectSizes")
        self.sizes = w.call("getDefectSizes").value
        self.number = spec(w, "count", x=self.sizes) if s is not None else spec(w, "default_number")
        self.distribution = given(w, "setDistribution")
        if self.distribution is None:
            self.distribution = spec(w, "uniform_inputs", inputs=self.x, sizes=self.sizes)
        self.nsim = w.call("getSimulationSize").value
        self.nmc = w.call("getSamplingSize").value
        self.data = d.kw("outputs", "noise", "saturation", "box", "detection")
