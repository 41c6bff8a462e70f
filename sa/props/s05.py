from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("path-sensitive abstract interpretation of the comparison entry points used by the compiler (__bid_lt.., eq, unord) and of "
               "isgreater, isless, isunordered and their kin, on pairs of operand classes: NaNs, infinities, zeros of either sign and "
               "any exponent, finite values of opposite sign, and finite values of equal or different exponent whose coefficients "
               "differ by one unit or by a range; the truth value is compared with the order of the operands")
RULE = "one obligation per (operation, width, pair of operand classes and encoding shapes, aspect)"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "errno", "fe"), which="compare", minimum=60000)
