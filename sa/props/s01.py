from . import _cells
EXPLANATION = ("path-sensitive abstract interpretation (GIMPLE/SSA, interprocedural by inlining) of every elementary and "
               "auxiliary function on classes of special operands; on each path the class, sign and range of the returned value "
               "and of stored outputs is compared with the C23/IEEE 754 requirement for that class")
RULE = "one obligation per (function, width, class of operands); non-trivial: the function is present and at least one path returns"
ASSUMPTIONS = ["libdecnumber operations behave as their documented contract (modelled, not analysed)",
               "gcc's GIMPLE for -O0 is the meaning of the source; decimal arithmetic operators follow IEEE 754 at class level",
               "libm/libc routines outside the library behave as documented"]


def run(ctx):
    _cells.run(ctx, ("result", "out"), minimum=1500)
