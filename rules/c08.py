"""C08: what the drawing methods draw, return and save."""
from sa.compare import Cmp
from sa.rt import World
from sa.terms import band, atoms_in, subst, num, NONE, FALSE, TRUE, string
from .common import Data, Surrogate, data_modes, where, spec, given, LINEAR, QUANT, CHAOS, KRIGING, ADAPT, HITMISS, ALL, QUIET
from . import values, lin, c20
from .sens import Sens, SView, PODS
from .draw import check_saved, check_drawn


def check(chk, ctx):
    chk.rule("returns", "a drawing method returns the figure it made and the axes of that figure")
    chk.rule("saved", "the returned figure is saved under the given name when there is one, complete, and no figure is saved otherwise")
    chk.rule("axes", "every piece of data is drawn on the returned axes")
    chk.rule("drawn", "what is drawn, under which condition: the values the object gives for the same arguments")
    for cls in ALL:
        for m in data_modes(ctx, cls, thresholds=((None, None), ("n", None)), boxes=(False,) if cls == HITMISS else (False, True)):
            chk.guarded("drawPOD/%s" % m, pod, chk, m)
    for cls in (KRIGING, CHAOS, ADAPT):
        for m in values.modes(ctx, cls, thresholds=((None, None), ("n", None)), boxes=(False, True)):
            chk.guarded("drawValidationGraph/%s" % m, validation, chk, m)
    for cls in (LINEAR, QUANT, KRIGING, CHAOS, ADAPT, lin.ANALYSIS):
        for m in lin.modes(ctx, boxes=(True,)) if cls == lin.ANALYSIS else data_modes(ctx, cls, values.THRESHOLDS, (True,)):
            chk.guarded("drawBoxCoxLikelihood/%s" % m, boxcox, chk, m)
    for m in lin.modes(ctx, boxes=(False, True)):
        for meth in REGRESSION:
            for which in ("uncensored", "censored"):
                if which == "uncensored" or "noise" in m.name or "sat" in m.name:
                    chk.guarded("%s/%s/%s" % (meth, which, m), regression, chk, m, meth, which)
    for cls in (QUANT, CHAOS):
        for m in values.modes(ctx, cls, boxes=(False, True)):
            chk.guarded("fit/%s" % m, fit, chk, m)

    for kind, scaled, s in c20.BASE:
        for meth in ("drawIndices", "drawMarginal1DPDF"):
            n = "%s%s%s" % (c20.KINDS[kind][0], " scaled" if scaled else "", " " + s if s else "")
            chk.guarded("%s/%s" % (meth, n), pli, chk, ctx, kind, scaled, s, n, meth)
    for cls, ps, kind, scaled, s in c20.PODS:
        flag = {c20.KINDS[kind][1]: TRUE if scaled else FALSE}
        ctx.afresh()
        m = Sens(ctx, c20.KINDS[kind][2], cls, ps, setters=s, **flag)
        m.name += " scaled" if scaled else ""
        for meth in ("drawIndices", "drawContourIndices"):
            chk.guarded("%s/%s" % (meth, m), pli_pod, chk, m, kind, flag[c20.KINDS[kind][1]], meth)
    ctx.afresh()
    for cls, ps in PODS:
        for s in ("", "setDistribution setDefectSizes setSimulationSize setSensitivityMethod=Jansen"):
            m = Sens(ctx, "SobolIndices", cls, ps, setters=s)
            for meth in SOBOL:
                chk.guarded("%s/%s" % (meth, m), sobol, chk, m, meth)


SOBOL = {"drawAggregatedIndices": None, "drawFirstOrderIndices": "first", "drawTotalOrderIndices": "total"}
REGRESSION = {"drawLinearModel": "draw_regression", "drawResiduals": "draw_residuals", "drawResidualsQQplot": "draw_qq",
              "drawResidualsDistribution": "draw_law"}


def drawn(chk, w, r, s, meth, m, labels=None):
    at, what = where(w, meth), "%s of %s" % (meth, m)
    check_saved(chk, "%s/%s" % (meth, m), w, r, at, what)
    check_drawn(chk, "%s/%s" % (meth, m), w, s, r, at, what, labels)


def frozen(w, r):
    return {n: w.I.freeze(v, r.st) for n, v in r.kw.items()}


def pod(chk, m):
    w = m.world()
    d = Data(w)
    r = w.call("drawPOD")
    k = frozen(w, r)
    if m.cls == LINEAR:
        lim = spec(w, "free_range", low=k["defectMin"], high=k["defectMax"], inputs=d.inputs)
    else:
        sizes = w.call("getDefectSizes").value if m.cls != QUANT else spec(w, "quantreg_defects", **d.kw("inputs", "outputs", "noise", "saturation"))
        lim = spec(w, "pod_range", low=k["defectMin"], high=k["defectMax"], sizes=sizes)
    s = w.spec("draw_pod", st=r.st, record=True, pod=w.obj, level=k["probabilityLevel"], confidence=k["confidenceLevel"], ends=lim, n=k["nbPt"])
    drawn(chk, w, r, s, "drawPOD", m)


def validation(chk, m):
    v = values.View(m)
    w, d = v.w, v.d
    r = w.call("drawValidationGraph")
    if m.cls == KRIGING:
        s = w.spec("draw_kriging_validation", st=r.st, record=True, result=v.result, transformation=v.transformation, **v.fit)
    elif m.cls == CHAOS:
        s = w.spec("draw_chaos_validation", st=r.st, record=True, result=v.result, **v.fit)
    else:
        s = w.spec("draw_adaptive_validation", st=r.st, record=True, state=v.adaptive_state(), dim=v.dim)
    drawn(chk, w, r, s, "drawValidationGraph", m)


def boxcox(chk, m):
    w = m.world()
    d = Data(w)
    r = w.call("drawBoxCoxLikelihood")
    s = w.spec("draw_boxcox", st=r.st, record=True, signals=d.outputs, noise=d.noise, saturation=d.saturation)
    drawn(chk, w, r, s, "drawBoxCoxLikelihood", m)


def regression(chk, m, meth, which):
    f = lin.Fit(m)
    w = f.w
    r = w.call(meth, model=string(which))
    kw = dict(f.data, coefs=f.coefs, which=string(which))
    if meth != "drawLinearModel":
        kw["factory"] = f.factory
    s = w.spec(REGRESSION[meth], st=r.st, record=True, **kw)
    drawn(chk, w, r, s, meth, "%s %s" % (m, which))


def fit(chk, m):
    v = values.View(m)
    w = v.w
    if m.cls == QUANT:
        r = w.call("drawLinearModel")
        s = w.spec("draw_quantile", st=r.st, record=True, level=frozen(w, r)["probabilityLevel"], **v.fit)
        drawn(chk, w, r, s, "drawLinearModel", m)
    else:
        r = w.call("drawPolynomialChaosModel")
        s = w.spec("draw_chaos", st=r.st, record=True, result=v.result, **v.fit)
        drawn(chk, w, r, s, "drawPolynomialChaosModel", m)


def pli(chk, ctx, kind, scaled, setters, n, meth):
    cls, flag, _ = c20.KINDS[kind]
    sc = TRUE if scaled else FALSE
    w = World(ctx, ctx.project.find_class(cls), args={flag: sc}, setters=setters)
    q = given(w, "setGaussKronrod")
    kw = dict(kind=string(kind), law=w.kw["distribution"], deltas=w.kw["delta"], scaled=sc,
              quadrature=spec(w, "copied_quadrature", algo=q) if q is not None else spec(w, "default_quadrature"))
    r = w.call(meth)
    k = frozen(w, r)
    if meth == "drawIndices":
        s = w.spec("draw_pli", st=r.st, record=True, pli=w.obj, level=k["confidenceLevel"], distances=k["hellinger"], label=k["label"], **kw)
        drawn(chk, w, r, s, meth, n, "label")
    else:
        s = w.spec("draw_marginal", st=r.st, record=True, m=k["marginal"], k=k["idelta"], original=k["showOriginal"], low=k["xMin"], high=k["xMax"],
                   n=k["pointNumber"], **kw)
        drawn(chk, w, r, s, meth, n)


def pli_pod(chk, m, kind, sc, meth):
    v, kw = c20.settings(m, kind, sc)
    w = v.w
    r = w.call(meth)
    k = frozen(w, r)
    if meth == "drawIndices":
        kw.pop("dim")
        s = w.spec("draw_pli_at", st=r.st, record=True, i=k["idefect"], level=k["confidenceLevel"], distances=k["hellinger"], label=k["label"], **kw)
        r.st.pc = band(r.st.pc, in_terms_of(w, s.st.pc, r))
        drawn(chk, w, r, s, meth, m, "label")
    else:
        s = w.spec("draw_contour", st=r.st, record=True, m=k["marginal"], **kw)
        drawn(chk, w, r, s, meth, m)


def in_terms_of(w, pc, r):
    """a condition of the specification, with the atoms the code writes otherwise"""
    c = Cmp(w.I, r.st)
    mine = {x: c.norm(x, TRUE) for x in atoms_in(w.I.freeze(r.value, r.st))}
    m = {}
    for a in atoms_in(pc):
        if a not in mine:
            n = c.norm(a, TRUE)
            same = [x for x, y in mine.items() if y is n]
            if same:
                m[a] = same[0]
    return subst(pc, m) if m else pc


def sobol(chk, m, meth):
    v = SView(m)
    w = v.w
    r = w.call(meth)
    k = frozen(w, r)
    sa = w.call("getSensitivityResult").value
    if SOBOL[meth] is None:
        s = w.spec("draw_aggregated", st=r.st, record=True, sa=sa, dim=v.dim, label=k["label"])
        drawn(chk, w, r, s, meth, m, "ticks")
    else:
        s = w.spec("draw_sobol", st=r.st, record=True, sa=sa, order=string(SOBOL[meth]), dim=v.dim, sizes=w.call("getDefectSizes").value, label=k["label"])
        drawn(chk, w, r, s, meth, m, "label")
