"""Runs a function on unconstrained arguments (every value of the parameter types; pointers to fresh objects)."""
from .domain import *
from .interp import Interp, Giveup
from . import ctypes_ as T
from .cells import setmode


def topval(I, t, name):
    while t and t[0] in ("lazy", "typedef", "const") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    if t is None:
        return None
    if t[0] == "dec":
        return dtop(t[1])
    if t[0] == "int":
        return itop(t[1], t[2])
    if t[0] in ("ptr", "pointer"):
        tgt = T.target(t)
        sz = T.size(tgt) if tgt and tgt[0] != "void" else 0
        o = I.newobj("*" + name, tgt if sz else ("void",), sz or None, "opaque")
        return PV(o.id, 0)
    return None


def run(prog, models, fname, mode=0, limit=20.0, unit=None, maxpaths=None, hold=None):
    """-> (Interp, outcomes); raises Giveup (what was found until then is in hold[0].defects)"""
    f = prog.find(fname, unit)
    if f is None:
        raise Giveup("no function " + fname)
    I = Interp(prog, models)
    I.TIME = limit
    if hold is not None:
        hold.append(I)
    if maxpaths:
        I.MAXPATHS = maxpaths
    args = []
    for n, txt in f.params:
        v = topval(I, prog.tdb[f.unit].named(txt), n)
        if v is None:
            raise Giveup("parameter type " + txt)
        args.append(v)
    return I, I.run(fname, args, unit=unit, setup=setmode(mode))
