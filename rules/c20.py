"""C20: perturbed-law indices."""
from sa.rt import World
from sa.terms import num, NONE, FALSE, TRUE, string
from .common import where, spec, given, CHAOS, KRIGING, ADAPT
from .sens import Sens, SView

KINDS = {"mean": ("PLIMeanBase", "sigmaScaled", "PLIMean"), "variance": ("PLIVarianceBase", "covScaled", "PLIVariance")}
BASE = (("mean", False, ""), ("mean", True, "setGaussKronrod"), ("variance", False, ""), ("variance", True, "setGaussKronrod"))
SETTINGS = "setDistribution setDefectSizes setSamplingSize setGaussKronrod"
PODS = ((KRIGING, "", "mean", True, ""), (KRIGING, "-setVerbose", "variance", True, ""), (CHAOS, "", "mean", False, ""),
        (CHAOS, "setPolynomialChaosResult", "variance", False, ""), (ADAPT, "", "mean", True, ""), (CHAOS, "", "mean", True, SETTINGS),
        (KRIGING, "setKrigingResult", "mean", False, SETTINGS))


def check(chk, ctx):
    chk.rule("pli", "the perturbed probability is the mean over the simulation of the likelihood ratio of the failure points, each marginal replaced "
                    "in turn by the density of the same law with the asked mean or variance that is closest to it; the index compares it with the "
                    "failure probability relatively to the smaller of the two; its interval is that of the normal law of the delta method")
    chk.rule("pod", "for a POD, the indices [perturbation, input, size] are those of the event 'the metamodel, at the normalised point, exceeds the "
                    "detection threshold' simulated over the law of the other inputs, and not a number where its probability is outside ]0.001, 0.999[")
    for kind, scaled, s in BASE:
        n = "%s%s%s" % (KINDS[kind][0], " scaled" if scaled else "", " " + s if s else "")
        chk.guarded("pli/" + n, base, chk, ctx, kind, scaled, s, n)
    for cls, ps, kind, scaled, s in PODS:
        flag = {KINDS[kind][1]: TRUE if scaled else FALSE}
        m = Sens(ctx, KINDS[kind][2], cls, ps, setters=s, **flag)
        m.name += " scaled" if scaled else ""
        chk.guarded("pod/%s" % m, pod, chk, m, kind, flag[KINDS[kind][1]])


def base(chk, ctx, kind, scaled, setters, n):
    cls, flag, _ = KINDS[kind]
    sc = TRUE if scaled else FALSE
    w = World(ctx, ctx.project.find_class(cls), args={flag: sc}, setters=setters)
    kw = dict(kind=string(kind), law=w.kw["distribution"], deltas=w.kw["delta"], scaled=sc)
    chk.equal("deltas/" + n, w, w.spec("deltas_of", **kw), w.call("getDeltaSample"), where(w, "getDeltaSample"), what="deltas of " + n)
    r = w.call("getOriginalDelta")
    chk.equal("original/" + n, w, w.spec("original_%s" % kind, st=r.st, law=kw["law"], marginal=r.kw["marginal"]), r, where(w, "getOriginalDelta"),
              what="original %s of %s" % (kind, n))
    q = given(w, "setGaussKronrod")
    kw.update(result=w.kw["monteCarloResult"], quadrature=spec(w, "copied_quadrature", algo=q) if q is not None else spec(w, "default_quadrature"))
    for g, f in (("getPerturbedProbabilityEstimate", "pli_probability_of"), ("getIndices", "pli_indices_of")):
        r = w.call(g)
        chk.equal("%s/%s" % (g, n), w, w.spec(f, st=r.st, **kw), r, where(w, g), what="%s of %s" % (g, n))
    r = w.call("computeConfidenceInterval")
    chk.equal("interval/" + n, w, w.spec("pli_interval_of", st=r.st, level=r.kw["confidenceLevel"], **kw), r,
              where(w, "computeConfidenceInterval"), what="interval of " + n)


def settings(m, kind, sc):
    v = SView(m)
    w = v.w
    meta = spec(w, "metamodel_of", result=v.pod.result) if v.cls == CHAOS else \
        spec(w, "normalised_metamodel", result=v.pod.result, transformation=v.transformation)
    q, n = given(w, "setGaussKronrod"), given(w, "setSamplingSize")
    q = spec(w, "copied_quadrature", algo=q) if q is not None else spec(w, "default_quadrature")
    return v, dict(kind=string(kind), metamodel=meta, threshold=v.threshold, law=v.law, dim=v.dim, n=n if n is not None else num(10000),
                   sizes=v.sizes, deltas=w.kw["delta"], scaled=sc, quadrature=q)


def pod(chk, m, kind, sc):
    v, kw = settings(m, kind, sc)
    w = v.w
    r = w.call("getIndices", idelta=NONE, marginal=NONE, idefect=NONE)
    s = w.spec("pli_pod", st=r.st, **kw)
    chk.equal("indices/%s" % m, w, s, r, where(w, "run"), what="indices of %s" % m)
    for k in range(1, 8):
        names = [x for i, x in enumerate(("idelta", "marginal", "idefect")) if k >> i & 1]
        g = w.call("getIndices", **{x: NONE for x in ("idelta", "marginal", "idefect") if x not in names})
        part = w.spec("part_of", st=g.st, s=r.value, **{x: (g.kw[x] if x in names else NONE) for x in ("idelta", "marginal", "idefect")})
        chk.equal("part/%s/%s" % ("+".join(names), m), w, part, g, where(w, "getIndices"), what="indices of %s for given %s" % (m, ", ".join(names)))
