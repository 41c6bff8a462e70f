"""What C23 / IEEE 754-2008 require of the math functions, as tables over input cells.

A cell is a set of argument values (a class of special values, a point, or an
interval); the requirement covers every value in it.
"""
from decimal import Decimal as D
from .domain import *

EDOM, ERANGE = 33, 34
FEX = INV | DIVZ | OVER


class Cell:
    """one requirement.  res: list of patterns (any may hold) or None; errno: set of allowed values, None in the
    set meaning untouched; req/forbid: FE flags that must / must not be reported."""
    __slots__ = ("fn", "name", "args", "res", "errno", "req", "forbid", "outs", "intres", "extra")

    def __init__(self, fn, name, args, res, errno=(None,), req=0, forbid=None, outs=None, intres=None, extra=None):
        self.fn, self.name, self.args, self.res = fn, name, args, res
        self.errno = None if errno is None else set(errno)
        self.req = req
        self.forbid = (FEX & ~req) if forbid is None else forbid
        self.outs = outs or {}
        self.intres = intres
        self.extra = extra or {}


def pat(p, a, args):
    """does atom a match pattern p: True / False / None (partly)"""
    if isinstance(p, str):
        if p == "nan":
            return a.kind == "qnan"
        if p == "anynan":
            return "nan" in a.kind
        if p in ("+inf", "-inf"):
            return a.kind == "inf" and a.sign == (p[0] == "-")
        if p == "inf":
            return a.kind == "inf"
        if p in ("+0", "-0"):
            return a.kind == "zero" and a.sign == (p[0] == "-")
        if p == "0":
            return a.kind == "zero"
        if p == "fin":
            return a.kind in ("fin", "zero")
        if p == "pos":
            return a.kind == "fin" and not a.sign
        if p == "neg":
            return a.kind == "fin" and bool(a.sign)
        if p == "any":
            return True
        if p == "notnan":
            return "nan" not in a.kind
        if p == "posz":
            return a.kind in ("fin", "zero") and not a.sign
        if p == "negz":
            return a.kind in ("fin", "zero") and bool(a.sign)
        if p.startswith("arg"):
            i = int(p[3])
            b = args[i].atoms[0]
            how = p[4:]
            if how == "abs":
                b = b._replace(sign=0)
            elif how == "neg":
                b = b._replace(sign=1 - b.sign)
            if b.kind != a.kind or b.sign != a.sign:
                return False
            if a.kind == "fin":
                if a.lo >= b.lo and a.hi <= b.hi:
                    return True if a.lo == a.hi == b.lo == b.hi else (True if (a.lo, a.hi) == (b.lo, b.hi) else None)
                if a.hi < b.lo or a.lo > b.hi:
                    return False
                return None
            return True
        raise ValueError(p)
    if p[0] == "q":           # signed value with its quantum exponent
        v, e = p[1], p[2]
        r = pat("-0" if v.is_signed() else "+0", a, args) if v == 0 else pat(("in", v, v), a, args)
        if r is not True:
            return r
        return None if a.rep is None else a.rep[1] == e
    if p[0] == "in":          # signed interval
        lo, hi = p[1], p[2]
        if a.kind == "zero":
            return lo <= 0 <= hi
        if a.kind != "fin":
            return False
        l, h = (a.lo, a.hi) if not a.sign else (-a.hi, -a.lo)
        if l >= lo and h <= hi:
            return True
        if h < lo or l > hi:
            return False
        return None
    raise ValueError(p)


def near(v):
    v = D(v)
    e = abs(v) * D("1e-5")
    return ("in", v - e, v + e)


def q(s=0):
    return A("qnan", s)


INFP, INFN, ZP, ZN, QN, SN = A("inf", 0), A("inf", 1), A("zero", 0), A("zero", 1), A("qnan", 0), A("snan", 0)


def P(v, hi=None):
    """finite cell from decimal strings (sign from the string)"""
    a = D(v)
    s = 1 if str(v).startswith("-") else 0
    b = abs(D(hi)) if hi is not None else abs(a)
    lo, h = sorted((abs(a), b))
    rep = None
    if lo == h:
        t = lo.as_tuple()
        rep = (int("".join(map(str, t.digits))), t.exponent)
    return fin(s, lo, h, None, rep)


def label(a):
    return show(a)


def _mk(fn, w, args, *rest, **kw):
    dvs = []
    for a in args:
        if isinstance(a, Atom):
            dvs.append(DV(w, [a]))
        else:
            dvs.append(a)
    name = ",".join(show(x.atoms[0]) if isinstance(x, DV) else repr(x) if isinstance(x, IV) else str(x) for x in dvs)
    return Cell(fn, name, dvs, *rest, **kw)


def unary(fn, w, rows):
    out = []
    for r in rows:
        a, res = r[0], r[1]
        kw = r[2] if len(r) > 2 else {}
        out.append(_mk(fn, w, [a], res if isinstance(res, list) else [res], **kw))
    return out


NANROWS = [(A("qnan", 0), "nan"), (A("qnan", 1), "nan"), (A("snan", 0), "anynan", dict(forbid=DIVZ | OVER))]
DOM = dict(errno=(EDOM,), req=INV)
POLE = dict(errno=(ERANGE,), req=DIVZ)
OVF = dict(errno=(ERANGE,), req=OVER)
UNF = dict(errno=(None, ERANGE), req=0, forbid=INV | DIVZ | OVER)


def edges(w):
    mx, mn = fmax(w), fmin(w)
    return mx, mn


def math_cells(w):
    """special-value requirements of the elementary functions, width w"""
    c = []
    mx, mn = edges(w)
    eps = D(10) ** -(FMT[w].p - 1)
    up1 = D(1) + eps                       # successor of 1
    dn1 = D(1) - eps / 10                  # predecessor of 1
    emaxe = FMT[w].emax
    ln10 = D("2.302585092994045684")
    big = D(emaxe + 1) * ln10              # exp overflow threshold is just below emax*ln10+...
    ovx = (D(emaxe) * ln10 + 1).quantize(D(1))
    unx = (D(-FMT[w].etiny + 2) * ln10 + 3).quantize(D(1))

    def F(a, b=None):
        return P(a, b)
    ident = [(ZP, "arg0"), (ZN, "arg0")]

    def both(lo, hi=None):
        return [P(lo, hi), P("-" + str(lo), hi)]
    PI = D("3.14159265358979")
    U = lambda fn, rows, nan=True: c.extend(unary(fn, w, (NANROWS if nan else []) + rows))

    U("acos", [(INFP, "nan", DOM), (INFN, "nan", DOM), (P(up1, mx), "nan", DOM), (P("-" + str(up1), mx), "nan", DOM),
               (P("1"), "+0"), (P("-1"), near(PI)), (ZP, near(PI / 2)), (ZN, near(PI / 2)),
               (P("0.01", "0.49"), ("in", D("1"), D("1.6"))), (P("-0.01", "0.49"), ("in", D("1.5"), D("2.2")))])
    U("asin", [(INFP, "nan", DOM), (INFN, "nan", DOM), (P(up1, mx), "nan", DOM), (P("-" + str(up1), mx), "nan", DOM),
               (P("1"), near(PI / 2)), (P("-1"), near(-PI / 2))] + ident)
    U("atan", [(INFP, near(PI / 2)), (INFN, near(-PI / 2))] + ident)
    U("acosh", [(INFP, "+inf"), (INFN, "nan", DOM), (P("1"), "+0"), (P(mn, dn1), "nan", DOM), (ZP, "nan", DOM),
                (ZN, "nan", DOM), (P("-1e-3", mx), "nan", DOM)])
    U("asinh", [(INFP, "arg0"), (INFN, "arg0")] + ident)
    U("atanh", [(INFP, "nan", DOM), (INFN, "nan", DOM), (P("1"), "+inf", POLE), (P("-1"), "-inf", POLE),
                (P(up1, mx), "nan", DOM), (P("-" + str(up1), mx), "nan", DOM)] + ident)
    U("cos", [(INFP, "nan", DOM), (INFN, "nan", DOM), (ZP, near(1)), (ZN, near(1))])
    U("sin", [(INFP, "nan", DOM), (INFN, "nan", DOM)] + ident)
    U("tan", [(INFP, "nan", DOM), (INFN, "nan", DOM)] + ident)
    U("cosh", [(INFP, "+inf"), (INFN, "+inf"), (ZP, near(1)), (ZN, near(1)),
               (P(ovx + 2, 9 * 10 ** 5), "+inf", OVF), (P("-" + str(ovx + 2), 9 * 10 ** 5), "+inf", OVF)])
    U("sinh", [(INFP, "arg0"), (INFN, "arg0"),
               (P(ovx + 2, 9 * 10 ** 5), "+inf", OVF), (P("-" + str(ovx + 2), 9 * 10 ** 5), "-inf", OVF)] + ident)
    U("tanh", [(INFP, near(1)), (INFN, near(-1))] + ident)
    U("exp", [(INFP, "+inf"), (INFN, "+0"), (ZP, near(1)), (ZN, near(1)),
              (P(ovx + 2, 9 * 10 ** 5), "+inf", OVF), (P("-" + str(unx), 9 * 10 ** 5), ["+0", ("in", 0, mn)], UNF),
              (P("1", "10"), ("in", D(2), D(30000)))])
    U("exp2", [(INFP, "+inf"), (INFN, "+0"), (ZP, near(1)), (ZN, near(1)),
               (P(ovx * 2, 9 * 10 ** 5), "+inf", OVF), (P("-" + str(unx * 2), 9 * 10 ** 5), ["+0", ("in", 0, mn)], UNF),
               (P("1", "10"), ("in", D("1.9"), D(1030)))])
    U("expm1", [(INFP, "+inf"), (INFN, near(-1)), (P(ovx + 2, 9 * 10 ** 5), "+inf", OVF)] + ident)
    for fn in ("log", "log10", "log2"):
        U(fn, [(INFP, "+inf"), (INFN, "nan", DOM), (ZP, "-inf", POLE), (ZN, "-inf", POLE), (P("1"), "+0"),
               (P("-" + str(mn), mx), "nan", DOM), (P("2", "9"), ("in", D("0.1"), D(4))),
               (P("0.1", "0.9"), ("in", D("-4"), D(0)))])
    U("log1p", [(INFP, "+inf"), (INFN, "nan", DOM), (P("-1"), "-inf", POLE), (P("-" + str(up1), mx), "nan", DOM)] + ident)
    U("cbrt", [(INFP, "arg0"), (INFN, "arg0"), (P("8", "27"), ("in", D("1.9"), D("3.1"))),
               (P("-8", "27"), ("in", D("-3.1"), D("-1.9")))] + ident)
    U("sqrt", [(INFP, "+inf"), (INFN, "nan", DOM), (P("-" + str(mn), mx), "nan", DOM), (P(mn, mx), "pos"),
               (P("1"), near(1)), (P("4", "9"), ("in", D("1.9"), D("3.1")))] + ident)
    U("erf", [(INFP, near(1)), (INFN, near(-1))] + ident)
    U("erfc", [(INFP, "+0"), (INFN, near(2)), (ZP, near(1)), (ZN, near(1))])
    U("lgamma", [(INFP, "+inf"), (INFN, "+inf"), (P("1"), "0"), (P("2"), "0"), (ZP, "+inf", POLE), (ZN, "+inf", POLE),
                 (P("-1"), "+inf", POLE), (P("-7"), "+inf", POLE)])
    U("tgamma", [(INFP, "+inf"), (INFN, "nan", DOM), (ZP, "+inf", POLE), (ZN, "-inf", POLE), (P("-1"), "nan", DOM),
                 (P("-7"), "nan", DOM)])
    # ---- two arguments
    B = lambda fn, a, b, res, **kw: c.append(_mk(fn, w, [a, b], res if isinstance(res, list) else [res], **kw))
    one, two, half = P("1"), P("2"), P("0.5")
    m1, m2 = P("-1"), P("-2")
    pos, neg = P("1.5", "9"), P("-1.5", "9")

    def nanprop(fn, others=(one, ZP, INFP, m1, INFN)):
        for o in others:
            B(fn, QN, o, "nan")
            B(fn, o, QN, "nan")
        B(fn, QN, QN, "nan")
        B(fn, SN, one, "anynan", forbid=DIVZ | OVER)
        B(fn, one, SN, "anynan", forbid=DIVZ | OVER)
    nanprop("atan2")
    for s, z, i in ((1, ZP, INFP), (-1, ZN, INFN)):
        B("atan2", z, ZP, "arg0")
        B("atan2", z, ZN, near(s * PI))
        B("atan2", z, pos, "arg0")
        B("atan2", z, neg, near(s * PI))
        B("atan2", i, INFP, near(s * PI / 4))
        B("atan2", i, INFN, near(s * PI * 3 / 4))
        B("atan2", i, pos, near(s * PI / 2))
        B("atan2", i, neg, near(s * PI / 2))
        B("atan2", P("%d" % s), INFN, near(s * PI))
        B("atan2", P("%d" % s), INFP, ["arg0", "+0" if s > 0 else "-0"])
        B("atan2", P("%d" % s), ZP, near(s * PI / 2))
        B("atan2", P("%d" % s), ZN, near(s * PI / 2))
    # pow
    for b in (QN, INFP, INFN, pos, neg, P("1"), P("-1")):
        for z in (ZP, ZN):
            B("pow", b, z, near(1))
    B("pow", ZP, ZP, near(1))
    B("pow", ZN, ZN, near(1))
    for y in (QN, INFP, INFN, pos, neg, two):
        B("pow", one, y, near(1))
    B("pow", QN, one, "nan")
    B("pow", two, QN, "nan")
    B("pow", QN, QN, "nan")
    B("pow", ZP, P("-3"), "+inf", **POLE)
    B("pow", ZN, P("-3"), "-inf", **POLE)
    B("pow", ZP, P("-2"), "+inf", **POLE)
    B("pow", ZN, P("-2"), "+inf", **POLE)
    B("pow", ZP, P("-2.5"), "+inf", **POLE)
    B("pow", ZN, P("-2.5"), "+inf", **POLE)
    B("pow", ZP, INFN, "+inf", errno=(None, ERANGE), forbid=INV | OVER)
    B("pow", ZN, INFN, "+inf", errno=(None, ERANGE), forbid=INV | OVER)
    B("pow", ZP, P("3"), "+0")
    B("pow", ZN, P("3"), "-0")
    B("pow", ZP, P("2"), "+0")
    B("pow", ZN, P("2"), "+0")
    B("pow", ZN, P("2.5"), "+0")
    B("pow", ZP, INFP, "+0")
    B("pow", m1, INFP, near(1))
    B("pow", m1, INFN, near(1))
    B("pow", P("-2.5"), P("1.5"), "nan", **DOM)
    B("pow", P("-2.5"), P("-1.5"), "nan", **DOM)
    B("pow", P("0.25", "0.5"), INFN, "+inf")
    B("pow", P("-0.25", "0.5"), INFN, "+inf")
    B("pow", P("1.5", "9"), INFN, "+0")
    B("pow", P("-1.5", "9"), INFN, "+0")
    B("pow", P("0.25", "0.5"), INFP, "+0")
    B("pow", P("1.5", "9"), INFP, "+inf")
    B("pow", P("-1.5", "9"), INFP, "+inf")
    B("pow", INFN, P("-3"), "-0")
    B("pow", INFN, P("-2"), "+0")
    B("pow", INFN, P("-2.5"), "+0")
    B("pow", INFN, P("3"), "-inf")
    B("pow", INFN, P("2"), "+inf")
    B("pow", INFN, P("2.5"), "+inf")
    B("pow", INFP, P("2.5"), "+inf")
    B("pow", INFP, P("-2.5"), "+0")
    B("pow", P("10"), P(emaxe + 5), "+inf", **OVF)
    # hypot
    for i in (INFP, INFN):
        for o in (QN, one, ZP, INFP, INFN):
            B("hypot", i, o, "+inf")
            B("hypot", o, i, "+inf")
    B("hypot", QN, one, "nan")
    B("hypot", one, QN, "nan")
    B("hypot", ZP, QN, "nan")
    B("hypot", ZN, ZN, "+0")
    B("hypot", P("-3"), ZP, near(3))
    B("hypot", ZP, P("-3"), near(3))
    B("hypot", P("3"), P("4"), near(5))
    # fmod / remainder / drem
    for fn in ("fmod", "remainder"):
        nanprop(fn)
        B(fn, ZP, pos, "arg0")
        B(fn, ZN, pos, "arg0")
        B(fn, ZP, neg, "arg0")
        B(fn, ZN, INFP, "arg0")
        for x in (INFP, INFN):
            for y in (one, ZP, INFP, INFN, neg):
                B(fn, x, y, "nan", **DOM)
        for x in (one, neg, ZP):
            for y in (ZP, ZN):
                B(fn, x, y, "nan", **DOM)
        for x in (P("1.5"), P("-1.5")):
            for y in (INFP, INFN):
                B(fn, x, y, "arg0")
    B("fmod", P("7"), P("4"), ["fin"])
    # fdim
    nanprop("fdim")
    B("fdim", one, two, "+0")
    B("fdim", ZP, ZN, "+0")
    B("fdim", INFP, one, "+inf")
    B("fdim", one, INFP, "+0")
    B("fdim", INFN, one, "+0")
    B("fdim", one, INFN, "+inf")
    B("fdim", INFP, INFP, "+0")
    B("fdim", P("7"), P("4"), near(3))
    B("fdim", P("9", "99"), P("1", "8"), "pos")
    B("fdim", P("1", "8"), P("9", "99"), "+0")
    B("fdim", P(mx), P("-" + str(mx)), "+inf", **OVF)
    # max / min
    for fn in ("fmax", "fmin", "fmaxmag", "fminmag"):
        for o in (one, m1, INFP, INFN, ZN, pos):
            B(fn, QN, o, "arg1")
            B(fn, o, QN, "arg0")
        B(fn, QN, QN, "nan")
        B(fn, A("qnan", 1), A("qnan", 1), "nan")
        mx_ = "max" in fn
        mag = "mag" in fn
        for a, b in ((one, two), (two, one), (m1, m2), (m2, m1), (one, m2), (m2, one), (INFP, one), (one, INFP), (INFN, one),
                     (one, INFN), (P("1.5", "3"), P("4", "9")), (P("4", "9"), P("1.5", "3")), (P("-4", "9"), P("-1.5", "3")),
                     (P("-1.5", "3"), P("-4", "9")), (P("-4", "9"), P("1.5", "3")), (P("1.5", "3"), P("-4", "9")), (m1, one),
                     (one, m1), (INFN, m1), (INFP, INFN), (ZP, m1), (m1, ZP), (ZN, one)):
            def mag_(x):
                return D("Infinity") if x.kind == "inf" else D(0) if x.kind == "zero" else x.lo

            def val(x):
                return -mag_(x) if x.sign else mag_(x)
            if mag and mag_(a) != mag_(b):
                first = (mag_(a) > mag_(b)) == mx_
            else:
                first = (val(a) > val(b)) == mx_
            B(fn, a, b, "arg0" if first else "arg1")
    # copysign
    for a in (one, pos, neg, INFN, ZP, ZN):
        for b, s in ((ZP, "abs"), (INFN, None), (P("-3"), None), (QN, "abs")):
            B("copysign", a, b, ("arg0abs" if s else ("arg0" if a.sign else "arg0neg")))
    B("copysign", QN, m1, "nan")
    # nextafter / nexttoward
    nanprop("nextafter", (one, ZP, INFP))
    for a in (one, ZP, INFP, INFN, m1, ZN):
        B("nextafter", a, a, "arg1")
    B("nextafter", ZP, ZN, "arg1")
    B("nextafter", ZN, ZP, "arg1")
    B("nextafter", ZP, one, ("in", mn, mn), errno=None, forbid=INV | DIVZ | OVER)
    B("nextafter", ZP, m1, ("in", -mn, -mn), errno=None, forbid=INV | DIVZ | OVER)
    B("nextafter", ZN, m1, ("in", -mn, -mn), errno=None, forbid=INV | DIVZ | OVER)
    B("nextafter", P(mx), INFP, "+inf", **OVF)
    B("nextafter", P("-" + str(mx)), INFN, "-inf", **OVF)
    B("nextafter", INFP, one, ("in", mx, mx))
    B("nextafter", INFN, one, ("in", -mx, -mx))
    B("nextafter", P("1"), two, ("in", up1, up1))
    B("nextafter", P("1"), ZP, ("in", dn1, dn1))
    U("nextup", [(INFP, "+inf"), (INFN, ("in", -mx, -mx)), (ZP, ("in", mn, mn)), (ZN, ("in", mn, mn)),
                 (P("-" + str(mn)), "-0"), (P(mx), "+inf", dict(errno=None, forbid=INV | DIVZ)), (P("1"), ("in", up1, up1))])
    U("nextdown", [(INFN, "-inf"), (INFP, ("in", mx, mx)), (ZP, ("in", -mn, -mn)), (ZN, ("in", -mn, -mn)),
                   (P(mn), "+0"), (P("-" + str(mx)), "-inf", dict(errno=None, forbid=INV | DIVZ)), (P("1"), ("in", dn1, dn1))])
    # fabs
    for a in (one, pos, neg, INFN, INFP, ZP, ZN, QN):
        c.append(_mk("fabs", w, [a], ["nan" if a is QN else "arg0abs"]))
    # integral roundings: specials (the rest is in the rounding property)
    for fn in ("ceil", "floor", "trunc", "round", "roundeven", "rint", "nearbyint"):
        U(fn, [(INFP, "arg0"), (INFN, "arg0")] + ident, nan=True)
    # quantize
    B("quantize", INFP, INFN, "+inf")
    B("quantize", INFN, INFP, "-inf")
    for x, y in ((INFP, one), (one, INFP), (INFN, ZP), (ZP, INFN)):
        B("quantize", x, y, "nan", errno=(None, EDOM), req=0, forbid=DIVZ | OVER)
    nanprop("quantize")
    # fma
    T = lambda a, b, d, res, **kw: c.append(_mk("fma", w, [a, b, d], res if isinstance(res, list) else [res], **kw))
    T(QN, one, one, "nan")
    T(one, QN, one, "nan")
    T(one, one, QN, "nan")
    T(INFP, one, one, "+inf")
    T(INFP, m1, one, "-inf")
    T(one, INFN, one, "-inf")
    T(one, one, INFN, "-inf")
    T(INFP, ZP, one, "nan", errno=(None, EDOM), req=0, forbid=DIVZ | OVER)
    T(ZN, INFP, one, "nan", errno=(None, EDOM), req=0, forbid=DIVZ | OVER)
    T(INFP, one, INFN, "nan", errno=(None, EDOM), req=0, forbid=DIVZ | OVER)
    T(one, one, P("-1"), "+0")
    T(two, P("3"), P("4"), near(10))
    T(P("-2"), P("3"), P("4"), near(-2))
    T(ZP, one, ZP, "+0")
    T(ZN, one, ZN, "-0")
    # scaling
    for fn, iw in (("ldexp", 32), ("scalbn", 32), ("scalbln", 64)):
        def S(a, n, res, nhi=None, **kw):
            v = iv(iw, True, n, nhi if nhi is not None else n)
            c.append(_mk(fn, w, [a, v], res if isinstance(res, list) else [res], **kw))
        lim = 2 ** 31 - 1
        for a in (QN, INFP, INFN, ZP, ZN):
            for n, nh in ((0, None), (1, 100), (-100, -1), (lim, None), (-lim, None)):
                S(a, n, "nan" if a is QN else "arg0", nh)
        for a in (one, P("-3")):
            S(a, 0, "arg0")
            S(a, 3, near("1000" if a is one else "-3000"))
            big_ = 4 * emaxe
            S(a, big_, "+inf" if a is one else "-inf", **OVF)
            S(a, big_ * 50, "+inf" if a is one else "-inf", **OVF)
            S(a, lim, "+inf" if a is one else "-inf", **OVF)
            S(a, -5 * big_, ["+0" if a is one else "-0", ("in", -mn, mn)], **UNF)
            S(a, -lim, ["+0" if a is one else "-0", ("in", -mn, mn)], **UNF)
    # logb family
    U("logb", [(INFP, "+inf"), (INFN, "+inf"), (ZP, "-inf", POLE), (ZN, "-inf", POLE), (P("1"), "+0"), (P("1234"), near(3)),
               (P("-0.05"), near(-2))])
    for fn, lo, hi, z in (("ilogb", -2 ** 31, 2 ** 31 - 1, -2 ** 31), ("llogb", -2 ** 63, 2 ** 63 - 1, -2 ** 63)):
        def L(a, lo_, hi_, **kw):
            c.append(_mk(fn, w, [a], None, intres=(lo_, hi_), **kw))
        nv = None
        L(P("1"), 0, 0)
        L(P("1234"), 3, 3)
        L(P("-0.05"), -2, -2)
        L(P("-" + str(mx)), FMT[w].emax, FMT[w].emax)
        for x in (ZP, ZN, INFP, INFN, QN):
            L(x, *((hi, hi) if x is INFP else (lo, hi) if x is INFN else (z, z)))
            c[-1].errno, c[-1].req, c[-1].forbid = {EDOM}, INV, DIVZ | OVER | UNDER
    for x in (INFP, INFN, QN):
        c.append(_mk("llquantexp", w, [x], None, intres=(-2 ** 63, -2 ** 63), errno=(EDOM,), req=INV, forbid=DIVZ | OVER | UNDER))
    for x, y, r in ((QN, QN, 1), (INFP, INFP, 1), (INFP, INFN, 1), (INFN, INFP, 1), (QN, INFP, 0), (INFN, QN, 0), (QN, one, 0), (one, QN, 0),
                    (INFP, one, 0), (one, INFN, 0), (QN, ZP, 0), (ZN, QN, 0), (INFP, ZP, 0), (ZN, INFN, 0)):
        c.append(_mk("samequantum", w, [x, y], None, intres=(r, r)))
    U("quantum", [(INFP, "+inf"), (INFN, "+inf")])
    # frexp / modf: second argument is the output pointer
    for a, res, e in ((ZP, "arg0", 0), (ZN, "arg0", 0), (INFP, "arg0", None), (INFN, "arg0", None), (QN, "nan", None),
                      (P("1"), ("in", D("0.1"), D("0.1")), 1), (P("-2500"), ("in", D("-0.25"), D("-0.25")), 4),
                      (P("1.5", "9"), ("in", D("0.1"), D("1")), None)):
        c.append(_mk("frexp", w, [a, "int*"], [res], outs={"p": ("int", e, e)} if e is not None else {"p": ("int", -2 ** 31, 2 ** 31 - 1)} if a.kind != "fin" else None))
    for a, res, o in ((ZP, "+0", "+0"), (ZN, "-0", "-0"), (INFP, "+0", "+inf"), (INFN, "-0", "-inf"), (QN, "nan", "nan"),
                      (P("3"), "+0", near(3)), (P("-3"), "-0", near(-3)), (P("2.5"), near("0.5"), near(2)),
                      (P("-2.5"), near("-0.5"), near(-2)), (P("0.25"), near("0.25"), "+0")):
        c.append(_mk("modf", w, [a, "dec*"], [res], outs={"p": ("dec", o)}))
    return c


# ------------------------------------------------------------------ generated grid
def _cls(w):
    mx, mn = edges(w)
    nrm = D(10) ** -(FMT[w].emax - 1)                # smallest normal
    eps = D(10) ** -(FMT[w].p - 1)
    d = {"q": A("qnan", 0), "Q": A("qnan", 1), "s": A("snan", 0), "i": INFP, "I": INFN, "z": ZP, "Z": ZN}

    def both(k, lo, hi=None):
        d[k.lower()] = P(lo, hi)
        d[k.upper()] = P("-" + str(lo), hi)
    both("u", mn, nrm / 10)                          # subnormal
    both("t", nrm, D("1e-20"))                       # tiny normal
    both("h", D("0.125"), D("0.5"))
    both("o", D(1))
    both("m", D("1.5"), D(9))
    both("n", D(10), D(700))
    both("b", D("1e20"), D("1e30"))
    both("x", mx)
    return d, mx, mn, nrm, eps


def grid_cells(w):
    c = []
    d, mx, mn, nrm, eps = _cls(w)
    emax = FMT[w].emax
    NAN = set("qQs")
    ZERO, INF_ = set("zZ"), set("iI")

    def sg(k):
        return d[k].sign

    def add(fn, ks, res, **kw):
        if any(k == "s" for k in ks):
            kw = dict(errno=None, forbid=DIVZ | OVER)
            res = "anynan"
        c.append(_mk(fn, w, [d[k] for k in ks], None if res is None else res if isinstance(res, list) else [res], **kw))
    S2 = lambda s, a: ("-" if s else "+") + a
    pn = lambda s: "neg" if s else "pos"

    # ---------------- fma
    K = "qQiIzZoMhB"
    for x in K:
        for y in K:
            for z in K:
                if sum(k in "qQ" for k in (x, y, z)) > 1 and "Q" in (x, y, z):
                    continue
                infz = (x in INF_ and y in ZERO) or (y in INF_ and x in ZERO)
                ps = sg(x) ^ sg(y)
                if x in NAN or y in NAN:
                    add("fma", x + y + z, "nan")
                elif infz:
                    if z in NAN:
                        add("fma", x + y + z, "nan", errno=(None, EDOM), forbid=DIVZ | OVER)
                    else:
                        add("fma", x + y + z, "nan", **DOM)
                elif z in NAN:
                    add("fma", x + y + z, "nan")
                elif x in INF_ or y in INF_:
                    if z in INF_ and sg(z) != ps:
                        add("fma", x + y + z, "nan", **DOM)
                    else:
                        add("fma", x + y + z, S2(ps, "inf"))
                elif z in INF_:
                    add("fma", x + y + z, "arg2")
                elif x in ZERO or y in ZERO:
                    if z in ZERO:
                        s = ps if ps == sg(z) else 0
                        add("fma", x + y + z, S2(s, "0"), extra={"nearest": 1} if ps != sg(z) else {})
                    else:
                        add("fma", x + y + z, pn(sg(z)))
                elif z in ZERO or sg(z) == ps:
                    add("fma", x + y + z, pn(ps))
    # ---------------- atan2
    K = "qQsiIzZuUhHoOmMbB"
    PI = D("3.14159265358979")
    for y in K:
        for x in K:
            if y in NAN or x in NAN:
                add("atan2", y + x, "nan")
                continue
            s = sg(y)
            m = -1 if s else 1
            ks = y + x
            if y in ZERO:
                add("atan2", ks, near(m * PI) if sg(x) else "arg0")
            elif y in INF_:
                if x in INF_:
                    add("atan2", ks, near(m * PI * (3 if sg(x) else 1) / 4))
                else:
                    add("atan2", ks, near(m * PI / 2))
            elif x in INF_:
                add("atan2", ks, near(m * PI) if sg(x) else [S2(s, "0"), "arg0"])
            elif x in ZERO:
                add("atan2", ks, near(m * PI / 2))
            else:
                add("atan2", ks, ["negz" if s else "posz"])
    # ---------------- hypot
    K = "qQiIzZhHoOmM"
    for x in K:
        for y in K:
            ks = x + y
            if x in INF_ or y in INF_:
                add("hypot", ks, "+inf")
            elif x in NAN or y in NAN:
                add("hypot", ks, "nan")
            elif x in ZERO and y in ZERO:
                add("hypot", ks, "+0")
            else:
                add("hypot", ks, "pos")
    add("hypot", "xx", "+inf", **OVF)
    add("hypot", "Xx", "+inf", **OVF)
    # ---------------- fdim
    K = "qQsiIzZuUhHmMbBxX"
    for x in K:
        for y in K:
            ks = x + y
            if x in NAN or y in NAN:
                add("fdim", ks, "nan")
                continue
            lx, hx = _rng(d[x])
            ly, hy = _rng(d[y])
            if hx <= ly:
                add("fdim", ks, "+0")
            elif x in INF_ or y in INF_:
                add("fdim", ks, "+inf")
            elif lx > hy:
                if ks == "xX":
                    add("fdim", ks, "+inf", **OVF)
                else:
                    add("fdim", ks, "pos")
    # ---------------- fmax family
    K = "qQiIzZuUhHoOmMbB"
    for fn in ("fmax", "fmin", "fmaxmag", "fminmag"):
        mxf, mag = "max" in fn, "mag" in fn
        for x in K:
            for y in K:
                ks = x + y
                if x in NAN and y in NAN:
                    add(fn, ks, "nan")
                elif x in NAN:
                    add(fn, ks, "arg1")
                elif y in NAN:
                    add(fn, ks, "arg0")
                else:
                    (lx, hx), (ly, hy) = _rng(d[x]), _rng(d[y])
                    if mag:
                        ax, ay = _arng(d[x]), _arng(d[y])
                        if ax[0] > ay[1] or ax[1] < ay[0]:
                            (lx, hx), (ly, hy) = ax, ay
                        elif ax != ay or ax[0] != ax[1]:
                            continue
                    if lx > hy:
                        add(fn, ks, "arg0" if mxf else "arg1")
                    elif ly > hx:
                        add(fn, ks, "arg1" if mxf else "arg0")
                    elif x == y:
                        add(fn, ks, "arg0" if d[x].kind != "zero" else "0")
    # ---------------- copysign
    K = "qQiIzZuUhHoOmMbBxX"
    for x in K:
        for y in K:
            add("copysign", x + y, "nan" if x in NAN else ("arg0" if sg(y) == sg(x) else "arg0neg"))
    # ---------------- remainder, fmod
    K = "qQsiIzZuUhHmMbB"
    for x in K:
        for y in K:
            ks = x + y
            for fn in ("remainder", "fmod"):
                if x in NAN or y in NAN:
                    add(fn, ks, "nan")
                elif x in INF_ or y in ZERO:
                    add(fn, ks, "nan", **DOM)
                elif y in INF_ or x in ZERO:
                    add(fn, ks, "arg0")
                else:
                    add(fn, ks, "fin")
    # ---------------- nextafter
    K = "qQsiIzZhHoOmMxX"
    for x in K:
        for y in K:
            ks = x + y
            if x in NAN or y in NAN:
                add("nextafter", ks, "nan")
                continue
            (lx, hx), (ly, hy) = _rng(d[x]), _rng(d[y])
            if x in ZERO and y in ZERO:
                add("nextafter", ks, "arg1")
            elif x in INF_ and y in INF_:
                if x == y:
                    add("nextafter", ks, "arg1")
                else:
                    add("nextafter", ks, ("in", mx, mx) if not sg(x) else ("in", -mx, -mx))
            elif x in INF_:
                add("nextafter", ks, ("in", mx, mx) if not sg(x) else ("in", -mx, -mx))
            elif ks in ("xi", "XI"):
                add("nextafter", ks, S2(sg(x), "inf"), **OVF)
            elif lx == hx and x == y:
                add("nextafter", ks, "arg1")
            elif x in ZERO:
                add("nextafter", ks, ("in", mn, mn) if ly > 0 else ("in", -mn, -mn), errno=None, forbid=INV | DIVZ | OVER)
            elif hx <= ly or lx >= hy:
                add("nextafter", ks, pn(sg(x)))
    # ---------------- quantize
    K = "qQsiIzZoOmM"
    for x in K:
        for y in K:
            ks = x + y
            if x in NAN or y in NAN:
                add("quantize", ks, "nan")
            elif x in INF_ and y in INF_:
                add("quantize", ks, "arg0")
            elif x in INF_ or y in INF_:
                add("quantize", ks, "nan", errno=(None, EDOM), req=0, forbid=DIVZ | OVER)
    # ---------------- pow
    pts = {"e": P("-4"), "f": P("4"), "g": P("-5"), "j": P("5"), "k": P("-3.5"), "l": P("3.5")}
    dd = dict(d)
    dd.update(pts)
    K = "qQiIzZhHoOmMbBuU"
    Y = "qQiIzZefgjkloO"

    def addp(x, y, res, **kw):
        c.append(_mk("pow", w, [dd[x], dd[y]], res if isinstance(res, list) else [res], **kw))
    for x in K:
        for y in Y:
            a, b = dd[x], dd[y]
            odd = y in "gjoO"
            isint = y in "efgjoO"
            neg = b.sign
            if y in ZERO or x == "o":
                addp(x, y, near(1))
            elif x in NAN or y in NAN:
                addp(x, y, "nan")
            elif y in INF_:
                lo, hi = _arng(a)
                if x == "O":
                    addp(x, y, near(1))
                elif hi < 1:
                    if x in ZERO and neg:
                        addp(x, y, "+inf", errno=(None, ERANGE), forbid=INV | OVER)
                    else:
                        addp(x, y, "+inf" if neg else "+0")
                else:
                    addp(x, y, "+0" if neg else "+inf")
            elif x in ZERO:
                s = a.sign and odd
                if neg:
                    addp(x, y, S2(s, "inf"), **POLE)
                else:
                    addp(x, y, S2(s, "0"))
            elif x in INF_:
                s = a.sign and odd
                addp(x, y, S2(s, "0" if neg else "inf"))
            elif a.sign and not isint:
                addp(x, y, "nan", **DOM)
            elif x in "uU":
                if w == 32 and y in "oO":
                    continue
                s = a.sign and odd
                if y in "fj":
                    addp(x, y, [S2(s, "0"), ("in", -mn, mn)], errno=(None, ERANGE), forbid=INV | DIVZ | OVER)
                elif y in "eg":
                    addp(x, y, S2(s, "inf"), **OVF)
            elif x in "hHoOmM":
                s = a.sign and odd
                addp(x, y, pn(s))
    # ---------------- unary, interior of the domain
    def U(fn, ks, res, **kw):
        for k in ks:
            r = res(k) if callable(res) else res
            add(fn, k, r, **kw)
    same = lambda k: ["negz" if sg(k) else "posz"]
    opp = lambda k: ["posz" if sg(k) else "negz"]
    U("asin", "hHtT", same)
    U("acos", "hHtT", "pos")
    U("atan", "hHmMnNbBxXtT", same)
    U("asinh", "hHmMnNtT", same)
    U("acosh", "mn", "pos")
    U("atanh", "hHtT", same)
    U("tanh", "hHmMtT", same)
    U("sinh", "hHmMtT", same)
    U("cosh", "hHmMtT", "pos")
    U("sin", "hHtT", same)
    U("tan", "hHtT", same)
    U("cos", "hHtT", "pos")
    U("sin", "mMnN", ("in", D("-1.0001"), D("1.0001")))
    U("cos", "mMnN", ("in", D("-1.0001"), D("1.0001")))
    U("exp", "hHmMtT", "pos")
    U("exp2", "hHmMtT", "pos")
    U("expm1", "hHmMtT", same)
    U("log", "mnbx", "pos")
    U("log", "htu", "neg")
    U("log10", "mnbx", "pos")
    U("log10", "htu", "neg")
    U("log2", "mnbx", "pos")
    U("log2", "htu", "neg")
    U("log1p", "hmnb", "pos")
    U("log1p", "H", "neg")
    U("cbrt", "uUtThHmMnNbBxX", lambda k: pn(sg(k)))
    U("sqrt", "uthmnbx", "pos")
    U("sqrt", "UTHMNBX", "nan", **DOM)
    U("erf", "tThHmMnN", same)
    U("erfc", "hHoOmM", "pos")
    U("lgamma", "mnb", "fin")
    U("lgamma", "n", "pos")
    U("tgamma", "m", "pos")
    for fn in ("log", "log10", "log2"):
        U(fn, "UTHOMNBX", "nan", **DOM)
    U("log1p", "MNBX", "nan", **DOM)
    U("acos", "mMnNbBxX", "nan", **DOM)
    U("asin", "mMnNbBxX", "nan", **DOM)
    U("atanh", "mMnNbBxX", "nan", **DOM)
    U("acosh", "uUtThHOMNBX", "nan", **DOM)
    for fn in ("exp", "expm1", "cosh", "exp2"):
        U(fn, "bx", "+inf", **OVF)
    U("sinh", "bBxX", lambda k: S2(sg(k), "inf"), **OVF)
    U("cosh", "BX", "+inf", **OVF)
    for fn in ("exp", "exp2"):
        U(fn, "BX", ["+0", ("in", 0, mn)], **UNF)
    U("expm1", "BX", near(-1))
    U("tanh", "nNbBxX", lambda k: near(-1 if sg(k) else 1))
    U("erf", "nNbBxX", lambda k: near(-1 if sg(k) else 1))
    U("erfc", "NBX", near(2))
    U("erfc", "bx", ["+0", ("in", 0, mn)], errno=(None, ERANGE), forbid=INV | DIVZ | OVER)
    U("tgamma", "bx", "+inf", **OVF)
    U("fabs", "qiIzZuUtThHoOmMnNbBxX", lambda k: "nan" if k in NAN else "arg0abs")
    for fn in ("ceil", "floor", "trunc", "round", "roundeven", "rint", "nearbyint"):
        add(fn, "o", near(1))
        add(fn, "O", near(-1))
        add(fn, "b", "pos")
        add(fn, "B", "neg")
        add(fn, "x", "pos")
        add(fn, "X", "neg")
    U("logb", "htu", "neg")
    U("logb", "nbx", "pos")
    U("logb", "mM", "posz")
    return c


def _arng(a):
    if a.kind == "inf":
        return (D("Infinity"), D("Infinity"))
    if a.kind == "zero":
        return (D(0), D(0))
    return (a.lo, a.hi)


def _rng(a):
    l, h = _arng(a)
    return (-h, -l) if a.sign else (l, h)


_base_math_cells = math_cells


def math_cells(w):
    seen, out = set(), []
    for x in _base_math_cells(w) + grid_cells(w):
        k = (x.fn, x.name)
        if k not in seen:
            seen.add(k)
            if heavy(x):
                x.extra["heavy"] = 1
            out.append(x)
    return out


def heavy(c):
    """cells whose exploration runs into the budget; judged in the thorough tier only"""
    f = [isinstance(a, DV) and a.atoms[0].kind == "fin" and a.atoms[0].lo != a.atoms[0].hi for a in c.args]
    return c.fn == "fmod" and all(f) or c.fn == "cbrt" and f[0] or c.fn in ("erf", "erfc", "log", "tgamma", "lgamma") and f[0] \
        and c.errno == {None} and c.res is not None and c.args[0].atoms[0].lo < 1000


# ------------------------------------------------------------------ libbid entry points
MODE2 = {32: "sd", 64: "dd", 128: "td"}


def _entry(c, name, w, **kw):
    c.extra["fname"] = name
    c.extra.update(kw)
    return c


def arith_cells(w):
    """+ - * / on operands at least one of which is special (the finite kernels are out of reach)"""
    c = []
    d, mx, mn, nrm, eps = _cls(w)
    NAN, ZERO, INF_ = set("qQs"), set("zZ"), set("iI")
    K = "qQsiIzZoOmMbBuUxX"
    m = MODE2[w]
    S2 = lambda s, a: ("-" if s else "+") + a

    def add(op, x, y, res, **kw):
        for a in _encs(d[x], w, mx):
            for b in _encs(d[y], w, mx):
                cell = _mk(op, w, [a, b], [res] if isinstance(res, str) else res, **kw)
                cell.name += "".join(" enc:%s" % u.enc for u in (a, b) if u.enc is not None)
                cell.errno = {None}
                c.append(_entry(cell, "__bid_%s%s3" % (op, m), w, glb=1))
    for op in ("add", "sub", "mul", "div"):
        for x in K:
            for y in K:
                a, b = d[x], d[y]
                if x not in "qQsiIzZ" and y not in "qQsiIzZ":
                    continue
                if x == "s" or y == "s":
                    add(op, x, y, "nan", req=INV, forbid=DIVZ | OVER)
                    continue
                if x in NAN or y in NAN:
                    add(op, x, y, "nan")
                    continue
                sx, sy = a.sign, b.sign ^ (op == "sub")
                sp = a.sign ^ b.sign
                if op in ("add", "sub"):
                    if x in INF_ and y in INF_:
                        if sx != sy:
                            add(op, x, y, "nan", req=INV, forbid=DIVZ | OVER)
                        else:
                            add(op, x, y, S2(sx, "inf"))
                    elif x in INF_:
                        add(op, x, y, S2(sx, "inf"))
                    elif y in INF_:
                        add(op, x, y, S2(sy, "inf"))
                    elif x in ZERO and y in ZERO:
                        add(op, x, y, S2(sx if sx == sy else 0, "0"), extra={"nearest": 1} if sx != sy else {})
                    # zero + finite runs through the alignment kernels: not decided here
                elif op == "mul":
                    if x in INF_ and y in ZERO or x in ZERO and y in INF_:
                        add(op, x, y, "nan", req=INV, forbid=DIVZ | OVER)
                    elif x in INF_ or y in INF_:
                        add(op, x, y, S2(sp, "inf"))
                    else:
                        add(op, x, y, S2(sp, "0"))
                else:
                    if x in INF_ and y in INF_ or x in ZERO and y in ZERO:
                        add(op, x, y, "nan", req=INV, forbid=DIVZ | OVER)
                    elif x in INF_:
                        add(op, x, y, S2(sp, "inf"))
                    elif y in INF_ or x in ZERO:
                        add(op, x, y, S2(sp, "0"))
                    else:
                        add(op, x, y, S2(sp, "inf"), req=DIVZ, forbid=INV | OVER)
    return c


def _encs(a, w, mx):
    """the encoding shapes a finite operand may have"""
    if a.kind != "fin" or a.rep is not None:
        return [a]
    if w == 128:
        return [a._replace(enc=k) for k in (0, 1, 2)]
    if a.lo == a.hi == mx:
        return [a._replace(enc="l")]
    if a.lo == a.hi:
        return [a._replace(enc="s")]
    return [a._replace(enc=k) for k in "sl"]


def coef(sign, c1, c2, e):
    """all values c * 10^e with c1 <= c <= c2 stored with exponent e"""
    return fin(sign, D((0, tuple(map(int, str(c1))), e)), D((0, tuple(map(int, str(c2))), e)))._replace(
        par=None, rep=(c1, e) if c1 == c2 else None, enc=(c1, c2, e) if c1 != c2 else None)


def _alignments(w):
    """pairs (x, y) of finite magnitudes whose comparison needs aligning exponents that differ by d: x is one stored value,
    y every coefficient of a range at its exponent. Yields (x, y, "lt"/"eq"/"gt")"""
    p = FMT[w].p
    cb = {32: 23, 64: 53, 128: 200}[w]

    def split(c1, c2):
        # a range that crosses the boundary between the two encodings is two classes
        b = 1 << cb
        if c1 > c2:
            return []
        if c1 < b <= c2:
            return [(c1, b - 1), (b, c2)]
        if w == 128 and c1 >> 64 != c2 >> 64:
            m = (c2 >> 64) << 64
            r = [(m, c2)]
            if (c1 >> 64) + 1 << 64 < m:
                r.append(((c1 >> 64) + 1 << 64, m - 1))
            r.append((c1, ((c1 >> 64) + 1 << 64) - 1))
            return r
        return [(c1, c2)]
    top = 10 ** p - 1
    e0 = -3
    for dd in sorted(set([0, 1, 2, p // 2, p - 2, p - 1, p, p + 1] + ([18, 19, 20, 21] if w == 128 else []))):
        for cx in (1, 7, 10 ** (p // 2) + 3, top // 3, 10 ** (p - 1), top):
            v = cx * 10 ** dd
            x = (cx, e0 + dd)
            out = []
            out += [(q, "gt") for q in split(1, min(v - 1, top))]
            if v <= top:
                out.append(((v, v), "eq"))
            if v < top:
                out += [(q, "lt") for q in split(v + 1, top)]
            for (c1, c2), r in out:
                yield x, (c1, c2, e0), r


def compare_cells(w):
    """the comparison entry points: C's relational operators and the quiet predicates"""
    c = []
    d, mx, mn, nrm, eps = _cls(w)
    K = "qQsiIzZuUtThHoOmMnNbBxX"
    m = MODE2[w]
    lt0, gt0 = (-2 ** 31, -1), (1, 2 ** 31 - 1)
    z = (0, 0)
    # libgcc conventions: the compiler compares the result with 0
    CONV = {"lt": (lt0, (0, 2 ** 31 - 1)), "le": ((-2 ** 31, 0), gt0), "gt": (gt0, (-2 ** 31, 0)), "ge": ((0, 2 ** 31 - 1), lt0),
            "eq": (z, ("nz", None)), "ne": (("nz", None), z), "unord": (("nz", None), z)}
    TRUE = {"lt": ("lt",), "le": ("lt", "eq"), "gt": ("gt",), "ge": ("gt", "eq"), "eq": ("eq",), "ne": ("lt", "gt", "un"), "unord": ("un",),
            "isgreater": ("gt",), "isgreaterequal": ("gt", "eq"), "isless": ("lt",), "islessequal": ("lt", "eq"),
            "islessgreater": ("lt", "gt"), "isunordered": ("un",)}

    def rel(a, b):
        if "nan" in a.kind or "nan" in b.kind:
            return "un"
        (lx, hx), (ly, hy) = _rng(a), _rng(b)
        if hx < ly:
            return "lt"
        if lx > hy:
            return "gt"
        if lx == hx == ly == hy:
            return "eq"
        return None

    def add(a, b, r, snan=False, ops=True, preds=True):
        nm = "".join(" enc:%s" % (u.enc,) for u in (a, b) if u.enc is not None)
        if ops:
            for op, (t, f) in CONV.items():
                cell = _mk(op, w, [a, b], None, intres=t if r in TRUE[op] else f, forbid=DIVZ | OVER)
                cell.name += nm
                c.append(_entry(cell, "__bid_%s%s2" % (op, m), w))
        if preds:
            for fn in ("isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"):
                cell = _mk(fn, w, [a, b], None, intres=("nz", None) if r in TRUE[fn] else z, forbid=DIVZ | OVER | (0 if snan else INV))
                cell.name += nm
                c.append(_entry(cell, "%sd%d" % (fn, w), w))

    for x in K:
        for y in K:
            r = rel(d[x], d[y])
            if r is None:
                continue
            special = x in "qQsiIzZ" or y in "qQsiIzZ" or d[x].sign != d[y].sign
            if special:
                for a in _encs(d[x], w, mx):
                    for b in _encs(d[y], w, mx):
                        add(a, b, r, "s" in (x, y), preds=False)
            add(d[x], d[y], r, "s" in (x, y), ops=False)
    inv = {"lt": "gt", "gt": "lt", "eq": "eq"}
    for (cx, ex), (c1, c2, ey), r in _alignments(w):
        for s in (0, 1):
            a, b = coef(s, cx, cx, ex), coef(s, c1, c2, ey)
            rr = inv[r] if s else r
            add(a, b, rr, preds=False)
            add(b, a, inv[rr], preds=False)
    return c


def class_cells(w):
    """classification and sign-bit operations, every class including subnormals and signaling NaNs"""
    c = []
    d, mx, mn, nrm, eps = _cls(w)
    d["S"] = A("snan", 1)
    d["v"] = P(nrm, mx)
    d["V"] = P("-" + str(nrm), mx)
    K = "qQsSiIzZuUtThHoOmMnNbBxXvV"
    FP = {"nan": 0, "inf": 1, "zero": 2, "sub": 3, "norm": 4}
    for k in K:
        a = d[k]
        cl = "nan" if "nan" in a.kind else a.kind if a.kind != "fin" else "sub" if k in "uU" else "norm"

        def add(fn, t, name=None):
            iv_ = t if isinstance(t, tuple) else ("nz" if t is True else (0, 0))
            cell = _mk(fn, w, [a], None, intres=(iv_[0], iv_[1]) if iv_ != "nz" else ("nz", None))
            c.append(_entry(cell, name or "%sd%d" % (fn, w), w))
        add("isnan", cl == "nan")
        if cl == "inf":
            add("isinf", True)
        else:
            add("isinf", False)
        for fn in ("isfinite", "finite"):
            add(fn, cl not in ("nan", "inf"))
        add("isnormal", cl == "norm")
        add("signbit", bool(a.sign))
        add("issignaling", a.kind == "snan")
        add("fpclassify", (FP[cl], FP[cl]))
    return c


# ------------------------------------------------------------------ conversions
ITYPES = {"si": (32, True), "di": (64, True), "ti": (128, True), "unssi": (32, False), "unsdi": (64, False), "unsti": (128, False)}


def trunc0(v):
    return int(v.to_integral_value(rounding="ROUND_DOWN", context=CTXN)) if isinstance(v, D) else int(v)


def stored(w, v):
    """(coefficient, exponent) of an exactly representable value, largest exponent"""
    t = D(v).as_tuple()
    c, e = int("".join(map(str, t.digits))), t.exponent
    while c and c % 10 == 0:
        c //= 10
        e += 1
    return (c, e) if c < 10 ** FMT[w].p else None


def conv_cells(w):
    """conversions between decimal and integer types, between decimal widths, and the rounding functions that return an integer"""
    c = []
    p = FMT[w].p
    top = 10 ** p - 1
    m = MODE2[w]
    cb = {32: 23, 64: 53, 128: 64}[w]

    hw = ((10 ** p - 1) >> 64) << 64        # the last high word of a 128-bit coefficient
    CUT = set((1 << cb, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 63, (1 << 63) + 1, 1 << 64))
    for k in range(0, p + 1):
        n = (10 ** k).bit_length()
        CUT |= {10 ** k, 1 << n, 1 << n - 1}
    if w == 128:
        CUT |= {hw, (1 << 113) - 1}

    def pieces(lo, hi, every=1):
        """[lo, hi] cut at powers of ten, at the powers of two next to them and at the encoding boundaries"""
        cuts = sorted(set([lo, hi + 1] + [x for x in CUT if lo < x <= hi]))
        r = [(a, b - 1) for a, b in zip(cuts, cuts[1:])]
        if w == 128:
            # a range of which the low word is not independent of the high word
            r2 = []
            for a, b in r:
                if a >> 64 != b >> 64 and b + 1 & (1 << 64) - 1:
                    m = (b >> 64) << 64
                    r2 += [(a, m - 1), (m, b)] if a < m else [(a, b)]
                else:
                    r2.append((a, b))
            r = r2
            r2 = []
            for a, b in r:
                if a >> 64 != b >> 64 and a & (1 << 64) - 1:
                    m = (a >> 64) + 1 << 64
                    r2 += [(a, m - 1), (m, b)] if m <= b else [(a, b)]
                else:
                    r2.append((a, b))
            r = r2
        return [x for i, x in enumerate(r) if i % every == 0 or i >= len(r) - 3]

    def values(tl, th):
        """(atom, truncated range) for decimals whose truncation fits [tl, th]"""
        yield A("zero", 0), (0, 0)
        yield A("zero", 1), (0, 0)
        for s in (0, 1):
            lim = -tl if s else th
            sg = -1 if s else 1

            def rng_(c1, c2, e):
                f = lambda q: int(D(q).scaleb(e, CTXN).to_integral_value(rounding="ROUND_DOWN"))
                a, b = f(c1), f(c2)
                return (sg * b, sg * a) if s else (a, b)
            # fractions of 1, tiny values
            for c1, c2, e in ((1, top, -p), (1, 9, -1), (1, 99, -2), (10 ** (p - 1), top, -p), (1, top, -p - 1), (5, 5, -1), (top, top, -p),
                              (1, top, -2 * p), (1, top, -3 * p), (1, 1, FMT[w].etiny), (1, top, FMT[w].etiny)):
                for a, b in [(c1, c2)] if c1 == c2 else pieces(c1, c2):
                    yield coef(s, a, b, e), (0, 0)
            if lim <= 0:
                continue
            # integers stored with exponent 0
            for a, b in pieces(1, min(top, lim)):
                yield coef(s, a, b, 0), rng_(a, b, 0)
            # with positive and with negative exponents
            for e in (1, 2, 3, 5, 9, 12, 15, 18, 19, 25, 32):
                hi = min(top, lim // 10 ** e)
                if hi >= 1:
                    for a, b in pieces(1, hi):
                        yield coef(s, a, b, e), rng_(a, b, e)
            for e in (1, 2, 4, p // 2, p - 2, p - 1):
                hi = min(top, (lim + 1) * 10 ** e - 1)
                lo = 10 ** e
                if lo > hi:
                    continue
                for a, b in pieces(lo, hi):
                    yield coef(s, a, b, -e), rng_(a, b, -e)
            # points at and around the limits and the powers of two
            pts = set()
            for b in (lim, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 10 ** p, 10 ** (p - 1), 1, 2, 10):
                for d in ("0", "-1", "1", "0.5", "-0.5", "0.9"):
                    pts.add(CTXN.add(D(b), D(d)))
                for k in range(0, 40, 4):       # the largest stored values below b
                    pts.add(D(b // 10 ** k).scaleb(k, CTXN))
            for v in sorted(pts):
                if v <= 0 or trunc0(v) > lim:
                    continue
                st = stored(w, v)
                if st:
                    t = sg * trunc0(v)
                    yield coef(s, st[0], st[0], st[1]), (t, t)
                    z = st[0] * 10
                    if z <= top:
                        yield coef(s, z, z, st[1] - 1), (t, t)

    def lab(cell, *a):
        cell.name += "".join(" enc:%s" % (u.enc,) for u in a if u.enc is not None)
        return cell
    for it, (iw, sg) in ITYPES.items():
        tl, th = (-(1 << iw - 1), (1 << iw - 1) - 1) if sg else (0, (1 << iw) - 1)
        name = "__bid_fix%s%s" % (it[:-2] + m, it[-2:])
        seen = set()
        for a, r in values(tl, th):
            k = (a.sign, a.kind, a.lo, a.hi, a.enc, a.rep)
            if k in seen:
                continue
            seen.add(k)
            cell = _mk("fix" + it, w, [a], None, intres=r, forbid=FEX)
            c.append(_entry(lab(cell, a), name, w, glb=0))
        # integer -> decimal, exact
        name = "__bid_float%s%s" % (it, m)
        lim = min(th, top)
        rs = pieces(0, lim)
        if iw == 128:       # the conversion works in chunks of 10^17
            g = 10 ** 17
            rs = [x for x in rs if x[1] < g] + [(a - a % g, b - b % g + g - 1) for a, b in rs if a >= g and b - b % g + g - 1 <= top]
        rs += [(x, x) for x in (0, 1, 9, 10, lim, lim - 1)]
        full = []
        for a, b in rs:
            full.append((a, b, 1))
            if sg and -b >= tl and b:
                full.append((-b, -max(a, 1), 1))
        for k in range(1, 40):      # multiples of powers of ten beyond p digits
            for cc in (1, 7, top // 3, top - 1, top):
                v = cc * 10 ** k
                if v <= th:
                    full.append((v, v, 1))
                if -v >= tl:
                    full.append((-v, -v, 1))
        if tl < 0 and stored(w, D(tl)):
            full.append((tl, tl, 1))
        for a, b, _ in dict.fromkeys(full):
            res = [("in", D(a), D(b))] if a else [("in", D(a), D(b))]
            if a == b == 0:
                res = ["+0"]
            cell = _mk("float" + it, w, [iv(iw, sg, a, b)], res, forbid=FEX)
            c.append(_entry(cell, name, w))
    c += _int_rounding_cells(w) + _narrow_cells(w)
    return c


def _rnd(v, how):
    return int(D(v).to_integral_value(rounding=how, context=CTXN))


# BID rounding mode -> the rounding of decimal
MODEHOW = {0: "ROUND_HALF_EVEN", 1: "ROUND_FLOOR", 2: "ROUND_CEILING", 3: "ROUND_DOWN", 4: "ROUND_HALF_UP"}
FIXEDHOW = {"lround": "ROUND_HALF_UP", "llround": "ROUND_HALF_UP", "round": "ROUND_HALF_UP", "roundeven": "ROUND_HALF_EVEN",
            "ceil": "ROUND_CEILING", "floor": "ROUND_FLOOR", "trunc": "ROUND_DOWN"}


def round_cells(w):
    """rounding to an integer, as an integer type or in the format, in every rounding mode"""
    c = []
    p = FMT[w].p
    mx = _cls(w)[1]
    lim = (1 << 63) - 1
    for fn in ("lrint", "llrint", "lround", "llround", "rint", "nearbyint", "round", "roundeven", "ceil", "floor", "trunc"):
        toint = fn[0] == "l"
        dyn = fn in ("lrint", "llrint", "rint")
        for mode in range(5):
            how = FIXEDHOW.get(fn) or MODEHOW[mode]

            def put(cell, a):
                cell.name += " mode %d" % mode + ("" if a.enc is None else " enc:%s" % (a.enc,))
                c.append(_entry(cell, "%sd%d" % (fn, w), w, mode=mode))

            def add(a, lo, hi, inexact):
                """rounds to a value in [lo, hi] (signed)"""
                kw = dict(forbid=INV | DIVZ | OVER | UNDER)
                if dyn and inexact:
                    kw["req"] = INEX
                elif dyn or fn == "nearbyint" or not inexact:
                    kw["forbid"] |= INEX
                if toint:
                    cell = _mk(fn, w, [a], None, intres=(lo, hi), **kw)
                elif lo == hi == 0:
                    cell = _mk(fn, w, [a], ["-0" if a.sign else "+0"], **kw)
                else:
                    cell = _mk(fn, w, [a], [("in", D(lo), D(hi))], **kw)
                put(cell, a)
            if toint:
                for a in (QN, A("qnan", 1), SN, INFP, INFN):
                    put(_mk(fn, w, [a], None, errno=(EDOM,), req=INV, forbid=DIVZ | OVER), a)
            else:
                for a in (QN, A("qnan", 1)):
                    put(_mk(fn, w, [a], ["nan"], forbid=FEX), a)
                put(_mk(fn, w, [SN], ["anynan"], forbid=DIVZ | OVER), SN)
                for a, r in ((INFP, "+inf"), (INFN, "-inf")):
                    put(_mk(fn, w, [a], [r], forbid=FEX), a)
            for s in (0, 1):
                sg = "-" if s else ""
                r = lambda v: _rnd(-D(v) if s else D(v), how)
                add(A("zero", s), 0, 0, False)
                big = ("9223372036854775809", "1E+19", "9.3E+18", "1E+30", str(10 ** p - 1) + "E+20")
                if toint:
                    for v in big:
                        st = stored(w, D(v))
                        if st:
                            a = coef(s, st[0], st[0], st[1])
                            put(_mk(fn, w, [a], None, errno=(EDOM,), req=INV, forbid=DIVZ | OVER), a)
                    a = P(sg + "1E+19", sg + str(mx))
                    put(_mk(fn, w, [a], None, errno=(EDOM,), req=INV, forbid=DIVZ | OVER), a)
                pts = set()
                for n in (0, 1, 2, 3, 8, 9, 10, 99, 100, 12345, 999999, 1 << 31, 1 << 32, 10 ** 15, 1 << 53, lim // 3):
                    for d in ("0", "0.5", "0.1", "0.499", "0.501", "0.9", "0.25", "0.75", "0.4999999"):
                        pts.add(D(n) + D(d))
                pts |= {D(lim), D(lim - 1), D(lim) - D("0.5"), D("1E-10"), D("1E-90"), D("4.9E-1"), D("5.1E-1"),
                        D(10 ** p - 1) / 10, D(10 ** p - 1) / 100, D(10 ** p - 5) / 10, D(10 ** p - 15) / 10, D(10 ** (p - 1) + 5) / 10, D(10 ** p - 1)}
                for k in range(0, 19):
                    pts |= {D(10) ** k, D(lim // 10 ** k).scaleb(k), D(5) * D(10) ** (k - 1), D(15) * D(10) ** (k - 1)}
                if not toint:
                    pts |= {D(v) for v in big} | {mx, _cls(w)[2]}
                for v in sorted(pts):
                    st = stored(w, v)
                    if not st or not st[0] or toint and (v > lim or not -lim - 1 <= r(v) <= lim):
                        continue
                    reps = [st]
                    if st[0] * 10 < 10 ** p:
                        reps.append((st[0] * 10, st[1] - 1))
                    for cf, e in reps:
                        if FMT[w].etiny <= e <= FMT[w].emax - p + 1:
                            add(coef(s, cf, cf, e), r(v), r(v), v != v.to_integral_value(context=CTXN))
                # ranges of integers
                for a, b, e in ((1, 9, 0), (10, 99, 0), (100, 999999, 0), (1, 9999, 2), (1000000, 9999999, 0), (1, 9, 17)) + (() if w == 32 else ((10 ** 15, 10 ** 16 - 1, 0), (10 ** 15, 9 * 10 ** 15, 3))):
                    v = (a * 10 ** e, b * 10 ** e)
                    add(coef(s, a, b, e), *((-v[1], -v[0]) if s else v), False)
                # ranges between an integer and the neighbouring tie
                for n in (0, 1, 2, 7, 50, 998):
                    for lo, hi in (("0.001", "0.499"), ("0.501", "0.999")):
                        lo, hi = n + D(lo), n + D(hi)
                        if r(lo) == r(hi):
                            add(P(sg + str(lo), sg + str(hi)), r(lo), r(lo), True)
                add(P(sg + "1E-80", sg + "0.4"), r("0.1"), r("0.1"), True)
                # wide ranges, every encoding: the result lies between the rounded ends
                for lo, hi in (("0.6", "99999.5"), ("2.5", "1234567"), ("1E+3", "9E+6"), ("1E+8", "9E+15")):
                    x, y = sorted((r(lo), r(hi)))
                    kw = dict(forbid=INV | DIVZ | OVER | UNDER | (INEX if fn == "nearbyint" else 0))
                    a = P(sg + lo, sg + hi)
                    if toint:
                        put(_mk(fn, w, [a], None, intres=(x, y), **kw), a)
                    else:
                        put(_mk(fn, w, [a], [("in", D(x), D(y))], **kw), a)
    return c


def _rnd(v, how):
    return int(D(v).to_integral_value(rounding=how, context=CTXN))


def _int_rounding_cells(w):
    """integers with more digits than the format holds: the correctly rounded value, to nearest with ties to even"""
    c = []
    p = FMT[w].p
    top = 10 ** p - 1
    for it, (iw, sg) in ITYPES.items():
        tl, th = (-(1 << iw - 1), (1 << iw - 1) - 1) if sg else (0, (1 << iw) - 1)
        if th <= top:
            continue
        name = "__bid_float%s%s" % (it, MODE2[w])
        seen = set()

        def add(lo, hi, v):
            for neg in (0, 1) if sg else (0,):
                a, b = (-hi, -lo) if neg else (lo, hi)
                if a < tl or b > th or (a, b) in seen:
                    continue
                seen.add((a, b))
                r = -v if neg else v
                cell = _mk("float" + it, w, [iv(iw, sg, a, b)], [("in", D(r), D(r))], forbid=INV | DIVZ | OVER)
                c.append(_entry(cell, name, w, nearest=True, heavy=w == 32 and iw == 64 and a != b))
        k = 1
        while 10 ** (p + k - 1) <= th:
            u = 10 ** k
            for q in (10 ** (p - 1), 10 ** (p - 1) + 1, 3 * 10 ** (p - 1) + 14, top // 3, 5 * 10 ** (p - 1), top - 1, top, th // u, th // u - 1):
                if not 10 ** (p - 1) <= q <= top:
                    continue
                n = q * u
                h = u // 2
                add(n, n, n)
                add(n + 1, n + h - 1, n)
                add(n + h, n + h, n if q % 2 == 0 else n + u)
                add(n + h + 1, n + u - 1, n + u)
                for x in (1, h - 1, h + 1, u - 1, h - u // 50, h + u // 50, h - u // 20000, h + u // 20000):
                    if 0 < x < u and x != h:
                        add(n + x, n + x, n if x < h else n + u)
            k += 1
        for n in (th, th - 1):
            r = int(D(n).normalize(CTXN.__class__(prec=p, rounding="ROUND_HALF_EVEN")))
            add(n, n, r)
    return c


def _narrow_cells(w):
    """conversions to the other two decimal formats"""
    import decimal
    c = []
    p = FMT[w].p
    top = 10 ** p - 1
    f = FMT[w]
    ftop = f.emax - p + 1
    for n in (32, 64, 128):
        if n == w:
            continue
        g = FMT[n]
        gtop = g.emax - g.p + 1
        name = "__bid_%s%s%s2" % ("extend" if n > w else "trunc", MODE2[w], MODE2[n])
        fn = name[6:]
        seen = set()

        def add(a, res, heavy=False, **kw):
            k = (a.sign, a.kind, a.lo, a.hi, a.enc, a.rep)
            if k in seen:
                return
            seen.add(k)
            cell = _mk(fn, w, [a], res if isinstance(res, list) else [res], **dict(dict(forbid=INV | DIVZ | OVER), **kw))
            cell.name += "" if a.enc is None else " enc:%s" % (a.enc,)
            c.append(_entry(cell, name, w, nearest=True, heavy=heavy))
        ctx = decimal.Context(prec=g.p, rounding="ROUND_HALF_EVEN", Emin=g.etiny + g.p - 1, Emax=g.emax, traps=[])
        for s in (0, 1):
            sgn = "-" if s else "+"
            add(A("inf", s), sgn + "inf")
            add(A("qnan", s), "anynan")
            add(A("snan", s), "anynan", forbid=DIVZ | OVER)
            add(A("zero", s), sgn + "0")

            def point(cf, e):
                if not (f.etiny <= e <= ftop) or not 0 < cf <= top:
                    return
                v = D((0, tuple(map(int, str(cf))), e))
                r = ctx.plus(v)
                if r.is_infinite():
                    add(coef(s, cf, cf, e), sgn + "inf", forbid=INV | DIVZ)
                elif r.is_zero():
                    add(coef(s, cf, cf, e), sgn + "0")
                else:
                    r = -r if s else r
                    add(coef(s, cf, cf, e), ("in", r, r))

            def span(c1, c2, e):
                """a range of coefficients all of which round to values between those of its ends"""
                if not (f.etiny <= e <= ftop) or not 0 < c1 < c2 <= top:
                    return
                hv = dict(heavy=w == 128 and c2 >= 10 ** g.p)
                mk = lambda cf: ctx.plus(D((0, tuple(map(int, str(cf))), e)))
                a, b = mk(c1), mk(c2)
                if a.is_infinite():
                    add(coef(s, c1, c2, e), sgn + "inf", forbid=INV | DIVZ, **hv)
                elif b.is_zero():
                    add(coef(s, c1, c2, e), sgn + "0", **hv)
                elif not a.is_zero() and not b.is_infinite():
                    add(coef(s, c1, c2, e), ("in", -b, -a) if s else ("in", a, b), **hv)
            cbw = {32: 23, 64: 53, 128: 64}[w]

            def spans(c1, c2, e):
                cuts = sorted({c1, c2 + 1} | {x for x in [1 << cbw] + [10 ** k for k in range(p)] if c1 < x <= c2})
                for a, b in zip(cuts, cuts[1:]):
                    if a == b - 1:
                        point(a, e)
                    else:
                        span(a, b - 1, e)
            es = sorted({0, 1, -1, -p, p, f.etiny, ftop, f.etiny + 1, ftop - 1, ftop - p, f.etiny + p,
                         g.etiny, gtop, g.etiny - 1, gtop + 1, g.etiny + 1, gtop - 1, gtop - g.p, gtop + 3, g.etiny - g.p, g.etiny - g.p - 1, g.etiny - g.p + 1,
                         g.etiny - 3, gtop - 8, gtop - 20})
            cs = {1, 2, 5, 9, 10, 11, 15, 25, 99, 12345, top, top - 1, 10 ** (p - 1), 5 * 10 ** (p - 1), 5 * 10 ** (p - 1) + 1, (1 << cbw) - 1 if (1 << cbw) <= top else 7, (1 << cbw) if (1 << cbw) <= top else 8}
            k = p - g.p
            if k > 0:
                for q in (10 ** (g.p - 1), 10 ** (g.p - 1) + 1, 10 ** g.p - 1, 10 ** g.p - 2, 5 * 10 ** (g.p - 1) + 3):
                    u = 10 ** k
                    for x in (0, 1, u // 2 - 1, u // 2, u // 2 + 1, u - 1, u // 3):
                        cs.add(q * u + x)
                for kk in (1, 2, k // 2, k - 1):
                    u = 10 ** kk
                    q = 10 ** (g.p - 1) + 7
                    for x in (0, 1, u // 2 - 1, u // 2, u // 2 + 1, u - 1):
                        cs.add(q * u + x)
                        cs.add((q + 1) * u + x)
            for e in es:
                for cf in sorted(cs):
                    point(cf, e)
                spans(1, min(top, 10 ** g.p - 1), e)
            # every number of digits rounded away, in the normal and in the subnormal range of the target
            for j in range(1, p + 2):
                u = 10 ** j
                q0 = 10 ** max(0, min(g.p, p - j) - 1)
                for q in sorted({0, 1, 2, 7, q0, q0 + 1, 10 * q0 - 1}):
                    for x in (0, 1, u // 2 - 1, u // 2, u // 2 + 1, u - 1):
                        point(q * u + x, g.etiny - j)
                        if q >= 10 ** (g.p - 1):
                            point(q * u + x, 0)
                            point(q * u + x, -j)
                    if w < 128:
                        spans(max(1, q * u + 1), min(top, q * u + u // 2 - 1), g.etiny - j)
                        spans(q * u + u // 2 + 1, min(top, q * u + u - 1), g.etiny - j)
                if j <= p and w < 128:
                    spans(10 ** (p - 1), top, g.etiny - j)
            if k > 0:
                for e in (0, -3, 5, gtop - k, g.etiny - k, g.etiny - 2, -p):
                    u = 10 ** k
                    for q in (10 ** (g.p - 1), 10 ** g.p - 1, 3 * 10 ** (g.p - 1) + 8):
                        spans(q * u + 1, q * u + u // 2 - 1, e)
                        spans(q * u + u // 2 + 1, q * u + u - 1, e)
    return c
