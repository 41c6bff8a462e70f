from . import _cells
from .s01 import ASSUMPTIONS as _A
EXPLANATION = ("path-sensitive abstract interpretation of isnan, isinf, isfinite, isnormal, issignaling, signbit and fpclassify on every "
               "class of encodings (both NaN kinds, infinities, zeros, subnormals, normals at both ends, both signs and both coefficient "
               "forms); return value, errno and exceptions are compared with C23")
RULE = "one obligation per (function, width, operand class, aspect)"
ASSUMPTIONS = _A


def run(ctx):
    _cells.run(ctx, ("result", "errno", "fe"), which="class", minimum=900)
