from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("path-sensitive abstract interpretation of lrint, llrint, lround, llround, rint, nearbyint, round, roundeven, ceil, floor and "
               "trunc in each of the five rounding modes (the mode variable holds a known value) on NaNs, infinities, zeros, values around "
               "ties and integers, ranges between an integer and the next tie, ranges of integers, wide ranges and, for the functions that "
               "return integers, values beyond the type; result, errno and flags are compared with the exact rounding")
RULE = "one obligation per (function, width, mode, operand class, aspect)"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "errno", "fe"), which="round", minimum=250000)
