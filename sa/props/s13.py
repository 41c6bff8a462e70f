from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("modf, frexp, logb, ilogb, llogb, ldexp, scalbn, scalbln, fdim, fmod, remainder, fma and sqrt of squares, and quantize, quantum, samequantum and llquantexp (with the quantum exponent of the result), are interpreted from "
               "their current source on stored values of every length, both BID encodings and both ends of the exponent range (for frexp, "
               "ilogb, logb and modf on the whole set of coefficients of each length), and the value returned, the value stored through a "
               "pointer, errno and the exceptions are compared with the exact result of C23 and IEEE 754")
RULE = "one obligation per (function, width, rounding mode, stored operands, aspect): exact result, stored result, errno, exceptions"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "out", "errno", "fe"), which="exact", minimum=200000)
