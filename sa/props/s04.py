from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("path-sensitive abstract interpretation of the exported add, subtract, multiply and divide entry points down to the "
               "encoding bits, on every class of operands of which at least one is a NaN, an infinity or a zero; class and sign of "
               "the result, errno and the exceptions raised on each path are compared with IEEE 754")
RULE = "one obligation per (operation, width, pair of operand classes and encoding shapes, aspect)"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "errno", "fe"), which="arith", minimum=25000, modes=(0, 1, 2, 3, 4))
