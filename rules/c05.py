"""C05: the POD is the probability that the signal exceeds the detection threshold, given the defect size."""
from .common import ALL
from . import values


def check(chk, ctx):
    chk.rule("pod", "getPODModel() is the probability (exact, empirical, or Monte-Carlo mean per defect size, then interpolated) that the "
                    "model's signal is strictly greater than the detection threshold at the given defect size")
    for c in ALL:
        values.each(chk, "pod", values.pod, values.modes(ctx, c, **values.FEW))
