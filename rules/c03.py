"""C03: a Box-Cox parameter given by the user is the one used and reported."""
from .common import SIGNAL, LINEAR, QUANT
from . import values
from .c02 import parameter


def check(chk, ctx):
    chk.rule("lambda", "getBoxCoxParameter() is the number given as boxCox")
    chk.rule("pod", "the POD curve is computed with the given parameter")
    chk.rule("level", "and so are the simulated curves behind the confidence level")
    for c in SIGNAL:
        ms = list(values.modes(ctx, c, boxes=("f",)))
        values.each(chk, "lambda", parameter, ms)
        values.each(chk, "pod", values.pod, ms)
        values.each(chk, "level", values.cl, [m for m in ms if c in (LINEAR, QUANT) or not m.setters])
