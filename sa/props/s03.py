from . import _cells
from .s01 import ASSUMPTIONS
EXPLANATION = ("path-sensitive abstract interpretation of every elementary and auxiliary function on classes of operands; the set of "
               "floating-point exceptions that must / may have been raised at each return is compared with the requirement")
RULE = "one obligation per (function, width, class of operands)"


def run(ctx):
    _cells.run(ctx, ("fe",), minimum=1600)
