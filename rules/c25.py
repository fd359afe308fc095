"""C25: a run depends on the data and the current settings only, not on earlier runs."""
from sa.project import AnalysisBroken
from sa.rt import Follow, World
from sa.terms import band, mk
from .common import ALL, CHAOS, HITMISS, KRIGING, LINEAR, QUANT, RESULT, Mode, where
from .sens import Sens

# accessors of settings that a given result makes useless
UNUSED = {CHAOS: {"getAdaptiveStrategy", "getProjectionStrategy"}, KRIGING: {"getBasis", "getCovarianceModel"}}


def modes(ctx):
    for c in (LINEAR, QUANT, CHAOS, KRIGING):
        for a, b, x in ((None, None, False), (None, None, True), ("n", "n", True), ("n", None, "f"), (None, "n", False)):
            for f in (None, "n") if c == LINEAR else (None,):
                yield Mode(ctx, c, a, b, x, factory=f)
    yield Mode(ctx, LINEAR, "n", "n", True, analysis=True)


def check(chk, ctx):
    chk.rule("rerun", "after run(), a change of settings and run() again, every accessor and detection size is the one of an object that had these settings from the start")
    for m in modes(ctx):
        chk.guarded("rerun/%s" % m, one, chk, ctx, m)
    for c in ("SobolIndices",):
        for pod in (KRIGING, CHAOS):
            m = Sens(ctx, c, pod, "")
            chk.guarded("rerun/%s" % m, sens, chk, ctx, m)


def one(chk, ctx, m):
    for first in ["none"] + (["-" + RESULT[m.cls], RESULT[m.cls]] if m.cls in RESULT else ["-none"]):
        w = World(ctx, m.cls, args=m, setters=first, run=False)
        ms = sorted(w.I.setter_methods(w.obj))
        for s in [""] + ms + (["-" + RESULT[m.cls]] if m.cls in RESULT else []):
            if s == RESULT.get(m.cls) and first != "none":
                continue
            chk.guarded("rerun/%s/%s/%s" % (m, first, s), history, chk, w, m, first, s)


def sens(chk, ctx, m):
    base = m.podmode.world()
    for first in ("none", "-none"):
        w = Follow(base, m.cls, args={"POD": base.obj}, setters=first, run=False)
        for s in [""] + sorted(w.I.setter_methods(w.obj)):
            chk.guarded("rerun/%s/%s/%s" % (m, first, s), history, chk, w, m, first, s)


def history(chk, w, m, first, s):
    I = w.I
    at = where(w, "run")
    new, old = w.st.copy(), w.st.copy()
    I.entry(w.method("run"), old, selfv=w.obj, label="first.run")
    for st in (new, old):
        I.call_setters(w.obj, st, s or "none")
        I.entry(w.method("run"), st, selfv=w.obj, label="second.run")
    names = sorted({k for ci in w.cls.mro() for k in ci.methods if k.startswith(("get", "compute")) and not k.startswith("_")})
    for k in names:
        if s == RESULT.get(m.cls) and k in UNUSED.get(m.cls, ()):
            continue
        args = {x.arg: mk("meta", x.arg) for x in w.method(k).node.args.args[1:]}
        x, y = w.call(k, st=new, **args), w.call(k, st=old, **args)
        y.st.pc = band(y.st.pc, x.st.pc)
        oid = "rerun/%s/%s/%s.%s" % (m, first, s or "unchanged", k)
        chk.guarded(oid, lambda: chk.equal(oid, w, x, y, at, st=y.st, pc=w.st.pc, what="%s after a second run()" % k))
