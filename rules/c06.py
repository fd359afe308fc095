"""C06: the first input is the defect: sizes range over it, Monte-Carlo fixes it and leaves the other inputs to their distribution."""
from sa.terms import num
from .common import where, given, spec, CHAOS, KRIGING, ADAPT, HITMISS
from . import values
from .values import View

CLASSES = [KRIGING, CHAOS, ADAPT, HITMISS]


def check(chk, ctx):
    chk.rule("sizes", "getDefectSizes() is the regular grid over the range of the kept defects (first input), or the given sizes in order")
    chk.rule("law", "getDistribution() is the given distribution; by default the inputs are uniform on the range of the kept data, the first "
                    "one on the range of the defect sizes")
    chk.rule("pod", "the POD at a defect size is estimated with the first input fixed at that size and the others drawn from their distribution")
    chk.rule("level", "and so is the confidence curve, over the same sizes")
    for c in CLASSES:
        ms = list(values.modes(ctx, c, thresholds=((None, None), ("n", "n")), boxes=(False,)))
        values.each(chk, "sizes", sizes, ms)
        values.each(chk, "pod", values.pod, ms)
        values.each(chk, "level", values.cl, ms)


def sizes(chk, m):
    v = View(m)
    w = v.w
    s = given(w, "setDefectSizes")
    if s is None:
        values.value(chk, v, "sizes", "getDefectSizes", "default_sizes", defects=first_column(v), number=num(10 if m.cls == ADAPT else 20))
    else:
        values.value(chk, v, "sizes", "getDefectSizes", "sorted_sizes", size=s)
    p = w.call("getDistribution")
    chk.equal("law/%s" % m, w, v.law, p, where(w, "getDistribution"), what="distribution of the inputs of %s" % m)


def first_column(v):
    return spec(v.w, "column0", x=v.x)
