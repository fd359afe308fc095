"""Sobol and PLI objects built on an analysed POD."""
from sa.rt import Follow
from sa.terms import num
from .common import Mode, given, spec, KRIGING, CHAOS, ADAPT, where
from .values import View

PODS = [(KRIGING, ""), (KRIGING, "setKrigingResult"), (KRIGING, "-setVerbose"), (CHAOS, ""), (CHAOS, "setPolynomialChaosResult"), (ADAPT, "")]


class Sens:
    """one sensitivity object: the POD it is built on, its own settings"""

    def __init__(self, ctx, cls, pod, podset, box=False, setters="", **kw):
        more = {"nMorePoints": num(0)} if pod == ADAPT else {}
        self.podmode = Mode(ctx, pod, None, None, box, setters=podset, **more)
        self.cls, self.setters, self.ctx, self.kw = cls, setters, ctx, kw
        self.name = "%s[%s%s%s]" % (cls, self.podmode, (";" + setters) if setters else "", "".join(";" + str(k) for k in sorted(kw)))

    def __str__(self):
        return self.name

    def world(self):
        key = ("sens", self.name)
        if key not in self.ctx._worlds:
            base = self.podmode.world()
            self.ctx._worlds[key] = Follow(base, self.cls, args=dict({"POD": base.obj}, **self.kw), setters=self.setters)
        return self.ctx._worlds[key]


class SView:
    def __init__(self, m):
        self.m, self.pod = m, View(m.podmode)
        self.w = w = m.world()
        self.cls = m.podmode.cls
        v = self.pod
        self.dim = spec(w, "other_inputs", result=v.result)
        self.threshold = spec(w, "model_detection", **v.data)
        law = given(w, "setDistribution")
        podlaw = v.w.call("getDistribution").value
        self.law = law if law is not None else spec(w, "others_law", law=podlaw, dim=self.dim)
        s = given(w, "setDefectSizes")
        self.sizes = spec(w, "sorted_sizes", size=s) if s is not None else v.sizes
        self.number = spec(w, "count", x=self.sizes)
        self.transformation = getattr(v, "transformation", None)
