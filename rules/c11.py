"""C11: an object that was run answers, whatever its settings."""
from sa.compare import feasible
from sa.terms import NONE, num
from .common import ADAPT, ALL, CHAOS, HITMISS, KRIGING, LINEAR, RESULT, Mode
from .sens import Sens

KINDS = {"local": "variable", "global": "name", "attribute": "attribute"}
ANALYSIS, SUMMARY = "UnivariateLinearModelAnalysis", "PODSummary"
POINTS = {ADAPT: num(2), HITMISS: num(7)}
SETALL = "-setNothing"                  # every setter but none
# what is only available if the Box-Cox transformation is enabled
BOXED = {"drawBoxCoxLikelihood"}


def modes(ctx):
    for c in ALL + [ANALYSIS, SUMMARY]:
        for a, b in ((None, None), ("n", None), (None, "n"), ("n", "n")):
            for x in (False, True, "f"):
                if c == HITMISS and (x is not False or a or b):
                    continue
                for s in ("",) + ((SETALL,) if c != ANALYSIS else ()) + (("-setMethodActive",) if c == SUMMARY else ()) + (
                        ("-setVerbose -" + RESULT[c],) if c in RESULT and (a or x) is not None and a == b else ()):
                    yield Mode(ctx, c, a, b, x, setters=s)
                    if c in POINTS and a == b:
                        m = Mode(ctx, c, a, b, x, setters=s, nMorePoints=POINTS[c])
                        m.name += " more points"
                        yield m
                        if c == HITMISS:
                            m = Mode(ctx, c, a, b, x, setters=s, nMorePoints=POINTS[c], detection=NONE)
                            m.name += " labels"
                            yield m
    for f in ("n",):
        for x in (False, True):
            yield Mode(ctx, LINEAR, "n", "n", x, factory=f)
            yield Mode(ctx, LINEAR, None, None, x, factory=f, analysis=True)
            yield Mode(ctx, LINEAR, "n", None, x, analysis=True)
    for c in ("SobolIndices", "PLIMean", "PLIVariance"):
        for pod in (KRIGING, CHAOS, ADAPT):
            for s in ("", SETALL):
                yield Sens(ctx, c, pod, "", setters=s)


def check(chk, ctx):
    chk.rule("run", "building and running an object reads no attribute, variable or name that is not set on every path leading there, and gives every function of the package arguments it has")
    chk.rule("after", "neither does any public method of an object that was run, whatever its configuration and settings")
    chk.rule("answers", "every public method returns on some path (the Box-Cox graph: if the transformation is enabled)")
    for m in modes(ctx):
        chk.guarded("run/%s" % m, one, chk, m)


def one(chk, m):
    w = m.world()
    at = w.cls.name
    if isinstance(m, Sens):
        box = True
    else:
        box = "box" in str(m) or "lambda" in str(m)
    reads(chk, "run/%s" % m, w.I.events, at)
    names = sorted({k for ci in w.cls.mro() for k in ci.methods if not k.startswith("_") and k != "run"})
    for k in names:
        chk.guarded("after/%s.%s" % (m, k), method, chk, m, w, k, box, at)


def method(chk, m, w, k, box, at):
    r = w.call(k)
    at = "%s (%s.%s)" % (w.method(k).where, w.cls.name, k)
    reads(chk, "after/%s.%s" % (m, k), r.events, at)
    if k not in BOXED or box is not False:
        chk.require("answers/%s.%s" % (m, k), feasible(r.st.pc), at, "it never returns after run()")


def reads(chk, oid, events, at):
    seen = set()
    for e in events:
        if e.kind == "unbound" and (e.name, e.where) not in seen and feasible(e.pc):
            seen.add((e.name, e.where))
            what = "%s is not called with the arguments it has" % e.name if e.extra == "arguments" else "the %s %s may not be set" % (KINDS[e.extra], e.name)
            chk.bad("%s/%s" % (oid, e.name), e.where, what)
    if not seen:
        chk.ok(oid, at, "no unset name")
