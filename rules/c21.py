"""C21: Sobol indices are those of the POD as a function of the other inputs."""
from sa.terms import string
from .common import CHAOS, KRIGING, where, given
from .sens import PODS, Sens, SView
from .values import View

METHODS = ["Saltelli", "Martinez", "Jansen", "MauntzKucherenko"]


def check(chk, ctx):
    chk.rule("sobol", "the sensitivity result is the asked estimator applied to the design of the inputs other than the defect (law: the "
                      "given one or the marginals of the POD) and to the probability of detection given these inputs, computed with the "
                      "metamodel and the threshold of the POD at every defect size whose output varies")
    for pod, ps in PODS:
        for s in [""] + ["setSensitivityMethod=" + x for x in METHODS] + ["setDistribution setDefectSizes setSimulationSize setSensitivityMethod=Jansen"]:
            m = Sens(ctx, "SobolIndices", pod, ps, setters=s)
            chk.guarded("sobol/%s" % m, sobol, chk, m)


def sobol(chk, m):
    v = SView(m)
    w = v.w
    r = w.call("getSensitivityResult")
    meth = [x[len("setSensitivityMethod="):] for x in m.setters.split() if "=" in x]
    k = dict(law=v.law, n=w.kw["N"], method=string(meth[0] if meth else "Saltelli"), sizes=v.sizes, dim=v.dim, threshold=v.threshold)
    if v.cls == CHAOS:
        s = w.spec("sobol_chaos", st=r.st, result=v.pod.result, nsim=w.call("getSimulationSize").value, **dict(v.pod.fit, **k))
    else:
        s = w.spec("sobol_kriging", st=r.st, result=v.pod.result, transformation=v.transformation, **k)
    known = []
    if v.cls != CHAOS:
        known.append(("sobol-kriging-raw-inputs", w.spec("sobol_kriging_raw", st=r.st, result=v.pod.result, **k)))
    chk.equal("sobol/%s" % m, w, s, r, where(w, "run"), what="Sobol indices of %s" % m, known=known)
