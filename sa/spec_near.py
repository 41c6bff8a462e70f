"""Requirement tables for closeness to the mathematical value: narrow operand intervals anywhere in the domain, and covers of the central
ranges by adjacent intervals, with the exact range of the function on each (sa/truth.json, written by dev/gen_truth.py)."""
import decimal
import json
import os
from .spec import *
from .spec import _mk

_rows = None
BYC = tuple("__%sd%d" % (f, w) for f in ("frexp", "ldexp", "scalbn") for w in (32, 64, 128))
CX = decimal.Context(prec=60, Emin=-10 ** 6, Emax=10 ** 6, traps=[])
TOL = 10                    # units in the last place allowed around the exact range of a narrow interval
# computed as a difference of values near 1: the error is a few units of 1, so it grows with 1/x near zero
LOOSE = {"expm1", "log1p", "sinh", "tanh", "asinh", "atanh"}
COVER = D("0.25")           # relative slack around the exact range on an interval of a cover


def rows():
    global _rows
    if _rows is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "truth.json")) as f:
            _rows = json.load(f)
    return _rows


def stored(w, lo, hi):
    """the values from lo to hi (same sign), as coefficients of one exponent"""
    lo, hi = D(lo), D(hi)
    s = 1 if lo < 0 or hi < 0 else 0
    lo, hi = sorted((abs(lo), abs(hi)))
    p = FMT[w].p
    e = hi.adjusted() - p + 1
    if lo.adjusted() != hi.adjusted() and CX.scaleb(lo, -e) != int(CX.scaleb(lo, -e)):
        e -= 1
    return coef(s, int(CX.scaleb(lo, -e)), int(CX.scaleb(hi, -e)), e)


def near_cells(w):
    out, seen = [], set()
    p = FMT[w].p

    def add(fn, args, res, kind, **kw):
        c = _mk(fn, w, args, res, **kw)
        for a in args:
            if a.enc is not None:
                c.name += " enc:%s" % (a.enc,)
        if (fn, c.name) in seen:
            return
        seen.add((fn, c.name))
        c.extra["by_contract"] = BYC
        c.extra["near"] = kind
        out.append(c)
    for fn, ww, kind, iv, (tl, th) in rows():
        if ww != w:
            continue
        lo, hi = D(tl), D(th)
        if kind in "nNhf":
            u = D(TOL)
            if fn == "tgamma":          # x^x amplifies the rounding of x ln x
                u += 4 * abs(D(iv[0][0]))
            if fn in LOOSE:
                u += 4 / abs(D(iv[0][0]))
            t = u * D(10) ** (1 - p)
        else:
            t = COVER
        a, b = sorted((abs(lo), abs(hi)))
        a, b = CX.multiply(a, 1 - min(t, D("0.9"))), CX.multiply(b, 1 + t)
        add(fn, [stored(w, *x) for x in iv], [("in", -b, -a) if lo < 0 else ("in", a, b)], kind)
        if kind == "N":
            out[-1].extra["heavy"] = 1
    # operands at the ends of the tables: only the accesses are judged
    lim = {32: (200, 235), 64: (870, 925), 128: (14130, 14165)}[w]
    for x in range(lim[0], lim[1]):
        for s in "", "-":
            for fn in ("exp", "expm1", "sinh", "cosh"):
                for f in ("", ".5"):
                    add(fn, [stored(w, s + str(x) + f, s + str(x) + f)], None, "edge")
    for i in range(100, 1000, 3):
        for fn in ("log", "log10"):
            for sc in ("1e-3", "1e-2", "1"):
                v = CX.multiply(D(i), D(sc))
                add(fn, [stored(w, v, v)], None, "edge")
    return out
