"""C10: settings are validated, stored and returned."""
from sa.rt import Follow, show
from sa.terms import NONE, TRUE, FALSE, num, string, simp, contains
from .common import ALL, ADAPT, CHAOS, HITMISS, KRIGING, LINEAR, QUANT, QUIET, RESULT, Data, Mode, fz, given, where
from .sens import Sens
from .values import View

SUMMARY, SOBOL = "PODSummary", "SobolIndices"
PLIS = ["PLIMean", "PLIVariance"]
KRIG = (KRIGING, ADAPT)

# setter: (parameter, getter, value it gives, condition of acceptance, type the library must accept, classes)
PLAIN = ("set_same", "ok_any", None)
SETTINGS = {
    "setSimulationSize": ("getSimulationSize",) + PLAIN,
    "setSamplingSize": ("getSamplingSize",) + PLAIN,
    "setCandidateSize": ("getCandidateSize",) + PLAIN,
    "setInitialStartSize": ("getInitialStartSize",) + PLAIN,
    "setDegree": ("getDegree",) + PLAIN,
    "setClassifierParameters": ("getClassifierParameters",) + PLAIN,
    "setVerbose": ("getVerbose", "set_same", "ok_bool", None),
    "setPMin": ("getPMin", "set_same", "ok_probability", None),
    "setPMax": ("getPMax", "set_same", "ok_probability", None),
    "setClassifierType": ("getClassifierType", "set_same", "ok_classifier", None),
    "setSensitivityMethod": ("getSensitivityMethod", "set_same", "ok_sobol", None),
    "setDefectSizes": ("getDefectSizes", "set_sorted", "ok_sizes", None),
    "setQuantile": ("getQuantile", "set_sorted", "ok_quantile", None),
    "setDistribution": ("getDistribution", "set_same", "ok_law", None),
    "setGraphActive": ("getGraphActive", "set_same", "ok_graph", None),
    "setBasis": ("getBasis", "set_same", None, "Basis"),
    "setCovarianceModel": ("getCovarianceModel", "set_same", None, "CovarianceModel"),
    "setAdaptiveStrategy": ("getAdaptiveStrategy", "set_same", None, "AdaptiveStrategy"),
    "setProjectionStrategy": ("getProjectionStrategy", "set_same", None, "ProjectionStrategy"),
    "setPolynomialChaosResult": ("getPolynomialChaosResult", "set_same", None, "FunctionalChaosResult"),
    "setKrigingResult": ("getKrigingResult", "set_same", None, "GaussianProcessRegressionResult"),
    "setGaussKronrod": ("getGaussKronrod", "set_kronrod", None, "GaussKronrod"),
    "setMethodActive": ("getMethodActive", "set_method", "ok_summary", None),
}
OF = {
    LINEAR: "SimulationSize Verbose",
    QUANT: "SimulationSize Quantile Verbose",
    CHAOS: "SimulationSize SamplingSize DefectSizes Distribution AdaptiveStrategy ProjectionStrategy Degree PolynomialChaosResult Verbose",
    KRIGING: "SimulationSize SamplingSize InitialStartSize DefectSizes Distribution Basis CovarianceModel KrigingResult Verbose",
    ADAPT: "SimulationSize SamplingSize InitialStartSize DefectSizes Distribution Basis CovarianceModel CandidateSize GraphActive Verbose",
    HITMISS: "SimulationSize SamplingSize DefectSizes Distribution CandidateSize PMin PMax ClassifierType ClassifierParameters GraphActive Verbose",
    SOBOL: "SimulationSize DefectSizes Distribution SensitivityMethod",
    SUMMARY: "SimulationSize SamplingSize Verbose MethodActive",
}
OF.update({p: "SamplingSize DefectSizes Distribution GaussKronrod" for p in PLIS})
# what the constructor chooses
DEFAULTS = {
    LINEAR: {"SimulationSize": 1000}, QUANT: {"SimulationSize": 1000, "Quantile": "default_quantile"},
    CHAOS: {"SimulationSize": 1000, "SamplingSize": 5000, "Degree": 3},
    KRIGING: {"SimulationSize": 1000, "SamplingSize": 5000, "InitialStartSize": 100},
    ADAPT: {"SimulationSize": 1000, "SamplingSize": 5000, "InitialStartSize": 100, "CandidateSize": 1000, "GraphActive": False},
    HITMISS: {"SimulationSize": 1000, "SamplingSize": 10000, "CandidateSize": 5000, "PMin": "0.45", "PMax": "0.52", "GraphActive": False,
              "ClassifierType": "rf", "ClassifierParameters": "default_forest"},
    SOBOL: {"SimulationSize": 1000, "SensitivityMethod": "Saltelli"},
    SUMMARY: {"SimulationSize": 1000, "SamplingSize": 5000, "MethodActive": "default_methods"},
}
DEFAULTS.update({p: {"SamplingSize": 10000} for p in PLIS})
for _c in ALL + [SUMMARY]:
    DEFAULTS[_c]["Verbose"] = True


def check(chk, ctx):
    chk.rule("stored", "after an accepted setX(v), getX() is v (sizes and quantiles: v flattened and sorted; integration algorithm: a copy)")
    chk.rule("accepted", "setX(v) raises exactly for the values that are not admissible")
    chk.rule("typed", "a value the library cannot take for the required type is rejected")
    chk.rule("others", "setX leaves the other settings as they were (a classifier type comes with its default parameters)")
    chk.rule("failed", "when setX raises, every setting is as before")
    chk.rule("default", "a new object has the documented default settings")
    chk.rule("kept", "run() leaves the settings as they were given")
    for c in ALL + [SUMMARY, SOBOL] + PLIS:
        if c == SOBOL or c in PLIS:
            m = Sens(ctx, c, KRIGING, "")
        else:
            m = Mode(ctx, c, "n", "n", setters="")
        chk.guarded("settings/%s" % c, settings, chk, ctx, c, m)


def world(ctx, c, m):
    if isinstance(m, Mode):
        return ctx.world(c, args=m, setters="-setNothing", run=False)
    base = m.podmode.world()
    return Follow(base, c, args={"POD": base.obj}, setters="-setNothing", run=False)


def default_value(w, d):
    if isinstance(d, bool):
        return TRUE if d else FALSE
    if isinstance(d, int):
        return num(d)
    if d.startswith("default_"):
        return fz(w, w.spec(d, st=w.st_new))
    if d[0].isdigit():
        from fractions import Fraction
        return num(Fraction(d))
    return string(d)


def settings(chk, ctx, c, m):
    w = world(ctx, c, m)
    names = OF[c].split()
    before = {}
    for s in names:
        before[s] = w.call("get" + s, st=w.st_new)
    for s, d in DEFAULTS[c].items():
        oid = "default/%s.%s" % (c, s)
        chk.guarded(oid, lambda: chk.equal(oid, w, default_value(w, d), before[s], where(w, "__init__"), what="default of %s" % s))
    again = {s: w.call("get" + s, st=w.st_set) for s in names}
    for s in names:
        for case in cases(c, s):
            chk.guarded("set/%s.%s" % (c, s), one, chk, w, w.st_new, c, m, s, names, before, case, "")
            chk.guarded("set/%s.%s" % (c, s), one, chk, w, w.st_set, c, m, s, names, again, case, "again,")
    chk.guarded("pairs/%s" % c, pairs, chk, w, c, names)
    if c in ALL:
        kept(chk, ctx, c)


def cases(c, s):
    if s == "KrigingResult":
        return [{}, {"transformation": NONE}]
    if s == "ClassifierType":
        return [{}, {"classifier": string("rf")}, {"classifier": string("svc")}]
    return [{}]


def required(w, s):
    a = w.method("set" + s).node.args
    return [x.arg for x in a.posonlyargs + a.args][1:]


def one(chk, w, st0, c, m, s, names, before, case, label):
    name = "set" + s
    getter, value, accept, typ = SETTINGS[name]
    tag = "%s%s.%s%s" % (label, c, s, "".join("," + show(v, 2) for v in case.values()))
    at = where(w, name)
    params = required(w, s)
    r = w.call(name, st=st0, label="%s.%s%s" % (c, name, "2" if label else ""), **dict({params[0]: "n"}, **case))
    arg = {k: w.I.freeze(x, r.st) for k, x in r.kw.items()}
    v = arg[params[0]]
    pc0 = st0.pc
    # acceptance
    if accept:
        k = {"value": v}
        if accept == "ok_sizes":
            k["inputs"] = inputs(w, c, m)
        elif accept == "ok_law" and c in [SOBOL] + PLIS:
            accept, k["dim"] = "ok_law_dim", fz(w, w.spec("other_inputs", st=st0, result=View(m.podmode).result))
        elif accept == "ok_graph":
            k = {"flag": v, "directory": arg[params[3]]}
        elif accept == "ok_summary":
            k = {"active": before[s].value, "method": v, "activation": arg[params[1]]}
        p = w.spec(accept, st=st0, **k)
        chk.equal("accepted/" + tag, w, w.I.freeze(p.value, p.st), simp(r.st.pc, pc0), at, st=st0, what="%s is accepted" % name)
    else:
        typed(chk, w, st0, r, v, typ, "typed/" + tag, at)
    if r.st.pc is FALSE:
        return chk.bad("stored/" + tag, at, "never accepted")
    # stored
    g = w.call(getter, st=r.st)
    if value == "set_method":
        p = w.spec(value, st=st0, active=before[s].value, method=v, activation=arg[params[1]])
    else:
        p = w.spec(value, st=st0, value=v)
    chk.equal("stored/" + tag, w, p, g, at, what="%s after %s" % (getter, name))
    # others
    for o in names:
        if o == s:
            continue
        got = w.call("get" + o, st=r.st)
        if s == "ClassifierType" and o == "ClassifierParameters":
            want = w.spec("classifier_defaults", st=st0, value=v)
            chk.equal("others/%s.%s" % (tag, o), w, want, got, at, what="get%s after %s" % (o, name))
        else:
            same(chk, w, "others/%s.%s" % (tag, o), before[o], got, at, "get%s after %s" % (o, name))
    for i, x in enumerate(r.raised):
        if simp(x.st.pc, pc0) is FALSE:
            continue
        for o in names:
            same(chk, w, "failed/%s.%s.%d" % (tag, o, i), before[o], w.call("get" + o, st=x.st), x.where, "get%s after %s failed" % (o, name))


def pairs(chk, w, c, names):
    """what was set stays set when another setting is given"""
    for o in names:
        first = w.call("set" + o, st=w.st_new, label="%s.set%s3" % (c, o), **{required(w, o)[0]: "n"})
        if first.st.pc is FALSE:
            continue
        want = w.call("get" + o, st=first.st)
        for s in names:
            if s == o or (s, o) == ("ClassifierType", "ClassifierParameters"):
                continue
            r = w.call("set" + s, st=first.st, label="%s.set%s4" % (c, s), **{required(w, s)[0]: "n"})
            if r.st.pc is not FALSE:
                oid = "others/%s.%s,then %s" % (c, o, s)
                chk.guarded(oid, same, chk, w, oid, want, w.call("get" + o, st=r.st), where(w, "set" + s), "get%s after set%s" % (o, s))


def same(chk, w, oid, before, after, at, what):
    chk.equal(oid, w, w.I.freeze(before.value, before.st), after, at, what=what)


def typed(chk, w, st0, r, v, typ, oid, at):
    """the value goes through the library's own conversion before it is stored"""
    conv = [e for e in r.events if e.kind == "call" and any(contains(w.I.freeze(x, r.st), v) for x in e.args)]
    hit = [e for e in conv if e.name.rsplit(".", 1)[-1] == typ]
    if hit:
        # the failure of the conversion does not reach the end of the setter
        return chk.ok(oid, at, "%s(%s)" % (hit[0].name, params_name(v)))
    if simp(r.st.pc, st0.pc) is TRUE and not conv:
        return chk.bad(oid, at, "the value is stored without any test")
    chk.unknown(oid, at, "no conversion to %s" % typ)


def params_name(v):
    return show(v, 2)


def inputs(w, c, m):
    """the kept inputs: the sizes must lie in the range of their first column"""
    base = w if isinstance(m, Mode) else m.podmode.world()
    d = Data(base)
    return fz(w, base.spec("model_inputs", st=w.st_new, **d.kw("inputs", "outputs", "noise", "saturation")))


FITTED = {(CHAOS, "Distribution"), (ADAPT, "Basis"), (ADAPT, "CovarianceModel")}     # replaced by what the model was built with


def kept(chk, ctx, c):
    """the settings given before run() are those returned after it"""
    m = Mode(ctx, c, "n", "n", setters=QUIET + "".join(" -" + r for k, r in RESULT.items() if k == c))
    w = m.world()
    for s in OF[c].split():
        v = given(w, "set" + s)
        if v is None or (c, s) in FITTED:
            continue
        oid = "kept/%s.%s" % (c, s)
        p = w.spec(SETTINGS["set" + s][1], value=v)
        chk.guarded(oid, lambda: chk.equal(oid, w, p, w.call("get" + s), where(w, "run"), what="get%s after run" % s))
