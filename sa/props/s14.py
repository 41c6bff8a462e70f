from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("interval analysis of the elementary functions from their current source: every branch, table access, polynomial, series and "
               "iteration is evaluated on an interval of operands (outward rounded, every decNumber and libgcc operation rounded as the format "
               "requires), and the interval of results is compared with the exact range of the mathematical function on the operands")
RULE = ("one obligation per (function, width, interval of operands): the computed interval lies within the exact range widened by the allowed "
        "error; a violation is a path whose results all lie outside it")
ASSUMPTIONS = _A + ["frexp, ldexp and scalbn behave as their own cells (S13) establish",
                    "the exact ranges in sa/truth.json, computed with mpmath at 80 digits from the end points of intervals on which the function is monotone",
                    "claims cover the intervals listed, not every operand"]


def run(ctx):
    _cells.run(ctx, ("result",), which="near", minimum=6000, select=lambda c, w: c.extra["near"] != "edge")
    ctx.cov["narrow intervals (one unit wide)"] = sum(1 for w in (32, 64, 128) for c in _cells.CELLS("near", w) if c.extra["near"] in "nh")
    ctx.cov["intervals of a cover"] = sum(1 for w in (32, 64, 128) for c in _cells.CELLS("near", w) if c.extra["near"] == "w")
