"""Linear regression: the analysis object and the linear POD."""
from sa.terms import num, NONE, index
from .common import Mode, Data, calls, where, spec, LINEAR
from .values import THRESHOLDS

ANALYSIS = "UnivariateLinearModelAnalysis"


def modes(ctx, thresholds=THRESHOLDS, boxes=(False, True, "f"), factories=(None, "n")):
    for a, b in thresholds:
        for x in boxes:
            for f in factories:
                yield Mode(ctx, ANALYSIS, a, b, x, f)


def pod_modes(ctx, thresholds=THRESHOLDS, boxes=(False, True, "f")):
    for a, b in thresholds:
        for x in boxes:
            for an in (False, True):
                yield Mode(ctx, LINEAR, a, b, x, "n", analysis=an)


class Fit:
    def __init__(self, m):
        self.m, self.w = m, m.world()
        w, d = self.w, Data(self.w)
        self.d = d
        ev = w.run_events if w.has("run") else w.init_events
        self.fmin = [e for e in calls(ev, "scipy.optimize.fmin") if not e.loops]
        self.boot = [e for e in calls(ev, "scipy.optimize.fmin") if e.loops]
        self.coefs = index(self.fmin[0].result, num(0)) if self.fmin else NONE
        self.factory = d.factory
        if self.factory is NONE and m.cls == ANALYSIS:
            self.factory = spec(w, "default_factory")
        self.data = d.kw("inputs", "outputs", "noise", "saturation", "box")

    def get(self, chk, oid, getter, fname, **kw):
        p = self.w.call(getter)
        chk.equal("%s/%s" % (oid, self.m), self.w, self.w.spec(fname, st=p.st, **dict(self.data, **kw)), p, where(self.w, getter),
                  what="%s of %s" % (getter, self.m))


TESTS = {"getR2": "R2", "getAndersonDarlingPValue": "Anderson Darling p-value", "getCramerVonMisesPValue": "Cramer Von Mises p-value",
         "getKolmogorovPValue": "Kolmogorov p-value", "getZeroMeanPValue": "Zero Mean p-value",
         "getBreuschPaganPValue": "Breusch Pagan p-value", "getHarrisonMcCabePValue": "Harrison McCabe p-value",
         "getDurbinWatsonPValue": "Durbin Watson p-value"}
COEFS = {"getIntercept": (0, "Intercept"), "getSlope": (1, "Slope"), "getStandardError": (2, "Stderr")}
