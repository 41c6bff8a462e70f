from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("path-sensitive abstract interpretation of the conversion entry points: decimal to 32, 64 and 128-bit signed and unsigned "
               "integers (truncation), those integers to decimal (exact when they fit, rounded to nearest even when they do not) and decimal "
               "widths to one another; coefficient ranges are cut at powers of ten, at encoding boundaries and at the limits of the integer "
               "type, stored with several exponents, plus ties, overflow and underflow of narrowing; the value returned is compared with the exact one")
RULE = "one obligation per (conversion, operand class, aspect)"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "errno", "fe"), which="conv", minimum=150000)
