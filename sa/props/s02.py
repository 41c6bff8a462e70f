from . import _cells
from .s01 import ASSUMPTIONS
EXPLANATION = ("path-sensitive abstract interpretation of every elementary and auxiliary function on classes of operands; on each path "
               "the value last stored to errno by the library (or that it is untouched) is compared with the requirement")
RULE = "one obligation per (function, width, class of operands)"


def run(ctx):
    _cells.run(ctx, ("errno",), minimum=1600)
