"""Further requirement tables: behaviour in the non-default rounding modes, and the rounding-mode interface."""
from .spec import *
from .spec import _mk, DOM, POLE, OVF
from .spec_exact import exact_cells
from .spec_near import near_cells

# BID code of each FE_DEC_ direction (TONEAREST, TOWARDZERO, UPWARD, DOWNWARD, TONEARESTFROMZERO = 0..4)
FE2BID = {0: 0, 1: 3, 2: 2, 3: 1, 4: 4}
# functions whose result never needs rounding
EXACT = {"copysign", "fabs", "fmax", "fmin", "fmaxmag", "fminmag", "frexp", "modf", "nextup", "nextdown", "ilogb",
         "llogb", "logb", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"}


def _next(x, up, w):
    """neighbour of x (signed Decimal or 'inf'/'-inf') in the given direction"""
    mx, mn = fmax(w), fmin(w)
    if x == 0:
        return mn if up else -mn
    if not x.is_finite():
        if (x > 0) == up:
            return x
        return mx if x > 0 else -mx
    if (x > 0) == up:
        r = nextup(abs(x), w)
        if r > mx:
            return D("Infinity") if x > 0 else D("-Infinity")
    else:
        r = nextdown(abs(x), w)
    return r if x > 0 else -r


def _at(v, neg=None):
    v = D(v)
    if not v.is_finite():
        return INFN if v < 0 else INFP
    if v == 0:
        return ZN if v.is_signed() else ZP
    t = abs(v).as_tuple()
    return fin(1 if v < 0 else 0, abs(v), abs(v), None, (int("".join(map(str, t.digits))), t.exponent))


def _is(v, sign0):
    """pattern for an exact result; sign0: sign of a zero"""
    if not v.is_finite():
        return "-inf" if v < 0 else "+inf"
    if v == 0:
        return "-0" if sign0 else "+0"
    return ("in", v, v)


def next_points(w):
    f = FMT[w]
    mx, mn, nn = fmax(w), fmin(w), fminnorm(w)
    pts = [D(0), mn, mn * 2, D(nextdown(nn, w)), nn, D(nextup(nn, w)), D("1"), D("0.1"), D("10"), D("2.5"), D("9" * f.p), D("1E%d" % f.p),
           D("1E%d" % (f.p - 1)), D((0, (9,) * f.p, -f.p)), D((0, (9,) * f.p, f.etiny)), D("1E%d" % f.emax), D(nextdown(mx, w)), mx, D("Infinity")]
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out + [D("-0") if p == 0 else -p for p in out]


def next_cells(w):
    out = []
    for x in next_points(w):
        a = _at(x)
        for y in (D("Infinity"), D("-Infinity"), D(0), D("-1"), D("1"), x):
            for fn, yw in (("nextafter", w), ("nexttoward", 128)):
                ya = _at(y)
                if x == y:
                    if x == 0:
                        res, ex = "-0" if D(y).is_signed() else "+0", x
                    else:
                        res, ex = _is(x, 0), x
                else:
                    ex = _next(x, y > x, w)
                    res = _is(ex, x < 0)
                ovf = not ex.is_finite() and x.is_finite()
                kw = dict(OVF) if ovf else dict(errno=(None, ERANGE), forbid=INV | DIVZ | OVER)
                if abs(ex) >= fminnorm(w) and not ovf or x == y and x != 0:
                    kw["errno"] = (None,)
                c = _mk(fn, w, [DV(w, [a]), DV(yw, [ya])], [res], **kw)
                c.name = "%s->%s" % (x, y)
                out.append(c)
        for fn, up in (("nextup", 1), ("nextdown", 0)):
            ex = _next(x, up, w)
            c = _mk(fn, w, [DV(w, [a])], [_is(ex, x < 0)], errno=None, forbid=INV | DIVZ)
            c.name = str(x)
            out.append(c)
    for s in (0, 1):
        for o in (ZP, INFN, _at("1.5")):
            for fn, yw in (("nextafter", w), ("nexttoward", 128)):
                out.append(_mk(fn, w, [DV(w, [A("qnan", s)]), DV(yw, [o])], ["nan"]))
                out.append(_mk(fn, w, [DV(w, [o]), DV(yw, [A("qnan", s)])], ["nan"]))
    return out


def _modes(c, modes):
    for m in modes:
        e = dict(c.extra)
        e["mode"] = m
        yield Cell(c.fn, c.name, c.args, c.res, c.errno, c.req, c.forbid, c.outs, c.intres, e)


def mode_cells(w):
    """exact and special results, in every mode"""
    out = []
    for c in next_cells(w):
        out += _modes(c, (0, 1, 2, 3, 4))
    for c in math_cells(w):
        if c.req & OVER or c.extra.get("nearest") or c.extra.get("heavy"):
            continue
        special = all(a.atoms[0].kind != "fin" for a in c.args if isinstance(a, DV))
        if c.fn in EXACT or special and c.fn not in ("fmod", "remainder"):
            out += _modes(c, (1, 2, 3, 4))
        else:
            # only the mode itself is looked at
            e = dict(c.extra)
            e["mode"] = 3 if len(out) % 2 else 1
            out.append(Cell(c.fn, c.name, c.args, None, None, 0, 0, {}, None, e))
    return out


def modeapi_cells(w):
    """the interface: every request in every mode"""
    if w != 32:
        return []
    out = []
    for m in range(5):
        for r in range(5):
            out.append(Cell("fe_dec_setround", "%d" % r, [ic(32, True, r)], None, (None,), 0, FEX | INEX, {}, (0, 0),
                            {"fname": "fe_dec_setround", "mode": m, "mode_after": FE2BID[r]}))
        for lo, hi in ((5, 5), (6, 2 ** 31 - 1), (-2 ** 31, -1), (-1, -1)):
            out.append(Cell("fe_dec_setround", "%d..%d" % (lo, hi), [iv(32, True, lo, hi)], None, (None,), 0, FEX | INEX, {}, ("nz", 0),
                            {"fname": "fe_dec_setround", "mode": m, "mode_after": m}))
        back = [k for k, v in FE2BID.items() if v == m][0]
        out.append(Cell("fe_dec_getround", "mode%d" % m, [], None, (None,), 0, FEX | INEX, {}, (back, back),
                        {"fname": "fe_dec_getround", "mode": m, "mode_after": m}))
    return out
