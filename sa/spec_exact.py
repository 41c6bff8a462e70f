"""Requirement tables for functions whose result is determined exactly: the value C23 and IEEE 754 define, at every digit count,
encoding, and end of the exponent range."""
import decimal
import random
from .spec import *
from .spec import _mk, DOM, POLE, OVF

MODES_PY = {0: "ROUND_HALF_EVEN", 1: "ROUND_FLOOR", 2: "ROUND_CEILING", 3: "ROUND_DOWN", 4: "ROUND_HALF_UP"}
BIG = decimal.Context(prec=14000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])
SANE = dict(forbid=INV | DIVZ | OVER)


def ctxw(w, mode=0):
    g = FMT[w]
    return decimal.Context(prec=g.p, rounding=MODES_PY[mode], Emin=g.etiny + g.p - 1, Emax=g.emax, traps=[])


def dec(s, c, e):
    return D((s, tuple(map(int, str(c))), e))


def shapes(w, few=False):
    """stored values (coefficient, exponent): every length class, encoding boundary and end of the exponent range"""
    f = FMT[w]
    p = f.p
    top = 10 ** p - 1
    cb = {32: 23, 64: 53, 128: 64}[w]
    etop = f.emax - p + 1
    cs = {1, 9, 10, 25, 1234, 10 ** (p - 1), top, top - 1, 5 * 10 ** (p - 1)}
    if not few:
        cs |= {2, 5, 11, 99, 100, 101, 999, 10 ** (p - 1) + 1, 10 ** (p - 1) - 1, top // 3, (1 << cb) - 1, 1 << cb, (1 << cb) + 1}
        for k in range(3, p):
            cs |= {10 ** k, 10 ** k - 1}
    es = {f.etiny, f.etiny + 1, -p, -2, -1, 0, 1, etop}
    if not few:
        es |= {f.etiny + p - 1, f.etiny + p, -p + 1, -p - 1, 3, p, etop - 1, etop - p}
    return [(c, e) for c in sorted(cs) if c <= top for e in sorted(es)]


def want(v, zs):
    """pattern for an exact Decimal result; zs: sign of a zero"""
    if v.is_nan():
        return "nan"
    if v.is_infinite():
        return "-inf" if v < 0 else "+inf"
    if v == 0:
        return "-0" if zs else "+0"
    return ("in", v, v)


def digit_ranges(w):
    """[lo, hi] of all coefficients with k digits, cut at the encoding boundary"""
    p = FMT[w].p
    b = 1 << {32: 23, 64: 53, 128: 64}[w]
    for k in range(1, p + 1):
        lo, hi = 10 ** (k - 1), 10 ** k - 1
        if lo < b <= hi:
            yield k, lo, b - 1
            yield k, b, hi
        else:
            yield k, lo, hi


def exact_cells(w):
    c = []
    f = FMT[w]
    p = f.p
    top = 10 ** p - 1
    etop = f.emax - p + 1
    emin = f.etiny + p - 1          # exponent of the smallest normal, as a power of ten
    cx = ctxw(w)
    seen = set()

    def add(fn, args, res, mode=0, by_contract=None, **kw):
        kw = dict(SANE, **kw)
        if "errno" in kw and kw.get("req", 0) & OVER:
            kw["forbid"] = INV | DIVZ
        cell = _mk(fn, w, args, res if isinstance(res, list) or res is None else [res], **kw)
        for a in args:
            if isinstance(a, Atom) and (a.enc is not None or a.rep is not None):
                cell.name += " enc:%s" % ((a.enc if a.enc is not None else a.rep),)
        if by_contract:
            cell.extra["by_contract"] = by_contract
        if mode:
            cell.extra["mode"] = mode
            cell.name += " mode %d" % mode
        if (fn, cell.name) in seen:
            return
        seen.add((fn, cell.name))
        c.append(cell)

    def at(s, cf, e):
        return coef(s, cf, cf, e)

    S = shapes(w)
    F = shapes(w, True)
    for s in (0, 1):
        # ---- modf
        for cf, e in S:
            v = dec(s, cf, e)
            i = BIG.plus(v).to_integral_value(rounding="ROUND_DOWN", context=BIG)
            fr = BIG.subtract(v, i)
            add("modf", [at(s, cf, e), "dec*"], want(fr, s), outs={"p": ("dec", want(i, s))})
        for k, lo, hi in digit_ranges(w):
            add("modf", [coef(s, lo, hi, 0), "dec*"], None, outs={"p": ("dec", ("in", D(-hi), D(-lo)) if s else ("in", D(lo), D(hi)))})
            a, b = dec(0, lo, -k), dec(0, hi, -k)
            add("modf", [coef(s, lo, hi, -k), "dec*"], ("in", -b, -a) if s else ("in", a, b), outs={"p": ("dec", "-0" if s else "+0")})
        # ---- frexp, logb, ilogb, llogb
        for k, lo, hi in digit_ranges(w):
            for e in sorted({f.etiny, f.etiny + 1, -p, -1, 0, 1, p, etop - 1, etop}):
                if w == 128:
                    # the coefficient is converted bit by bit: one value at a time, at one end of the exponent range for each length
                    for i, cf in enumerate((lo, hi)):
                        x, m, l = at(s, cf, e), dec(s, cf, -k), D(e + k - 1)
                        add("logb", [x], want(l, 0))
                        if e != (etop, 0, f.etiny, -p, 1, etop - 1)[(k + i + 3 * s) % 6] or (k + i) % 2 != s and k not in (1, 2, p - 1, p):
                            continue
                        add("frexp", [x, "int*"], ("in", m, m), outs={"p": ("int", e + k, e + k)})
                        add("ilogb", [x], None, intres=(e + k - 1,) * 2)
                        add("llogb", [x], None, intres=(e + k - 1,) * 2)
                    add("logb", [coef(s, lo, hi, e)], want(D(e + k - 1), 0))
                    continue
                a, b = dec(0, lo, -k), dec(0, hi, -k)
                x = coef(s, lo, hi, e)
                if k <= 9:
                    add("frexp", [x, "int*"], None if w == 32 else ("in", -b, -a) if s else ("in", a, b), outs={"p": ("int", e + k, e + k)})
                    add("ilogb", [x], None, intres=(e + k - 1,) * 2)
                    add("llogb", [x], None, intres=(e + k - 1,) * 2)
                l = D(e + k - 1)
                add("logb", [x], want(l, 0))
                for cf in (lo, hi):
                    x = at(s, cf, e)
                    m = dec(s, cf, -k)
                    add("frexp", [x, "int*"], ("in", m, m), outs={"p": ("int", e + k, e + k)})
                    add("logb", [x], want(l, 0))
                    add("ilogb", [x], None, intres=(e + k - 1,) * 2)
        # ---- ldexp, scalbn, scalbln
        for fn, iw in (("ldexp", 32), ("scalbn", 32), ("scalbln", 64)):
            for cf, e in (S if fn == "ldexp" else F):
                v = dec(s, cf, e)
                adj = v.adjusted()
                ns = {0, 1, -1, 3, -3, p, -p, f.emax - adj, f.emax - adj + 1, f.emax - adj - 1, f.emax - adj - p, etop - e, etop - e + 1, emin - adj, emin - adj - 1,
                      emin - adj - p // 2, f.etiny - e, f.etiny - e - 1, f.etiny - e - p, f.etiny - adj, f.etiny - adj - 1, f.etiny - adj - 2}
                for n in sorted(ns):
                    r = cx.scaleb(v, 0)
                    r = cx.plus(BIG.scaleb(v, n))
                    kw = {}
                    if r.is_infinite():
                        kw = dict(OVF)
                    elif abs(r) < D(10) ** emin:
                        kw = dict(errno=(None, ERANGE))
                    add(fn, [at(s, cf, e), iv(iw, True, n, n)], want(r, s), **kw)
                    if (cf, e) not in F:
                        continue
                    for m in (1, 2, 3, 4):
                        cm = ctxw(w, m)
                        rm = cm.plus(BIG.scaleb(v, n))
                        if rm == r and not kw or e != F[0][1] and (cf + n) % 5:
                            continue
                        km = dict(kw)
                        if "req" in km:
                            km["errno"] = (None, ERANGE)
                        add(fn, [at(s, cf, e), iv(iw, True, n, n)], want(rm, s), mode=m, **km)
        # ---- sqrt of squares
        if not s:
            for q in (1, 2, 3, 12, 99, 316, 10 ** (p // 2) - 1):
                for e in (f.etiny + f.etiny % 2, -p - p % 2, -2, 0, 2, etop - etop % 2):
                    if q * q <= top and f.etiny <= e <= etop:
                        r = dec(0, q, e // 2)
                        add("sqrt", [at(0, q * q, e)], want(r, 0))
        # ---- quantum exponents
        for cf, e in S:
            x = at(s, cf, e)
            add("llquantexp", [x], None, intres=(e, e))
            add("quantum", [x], ("q", dec(0, 1, e), e))
            for k, (cy, ey) in enumerate(F):
                if (cf + cy + k + e) % 11 and not 0 < ey - e < 3 or cy not in (1, 1234, top):
                    continue
                y = at((k + cf) % 2, cy, ey)
                add("samequantum", [x, y], None, intres=(int(e == ey),) * 2)
                for m in (0, 1, 2, 3, 4) if (cf, e) in F and (cy != 1 or ey == 0) else (0,):
                    r = ctxw(w, m).quantize(dec(s, cf, e), dec(0, cy, ey))
                    kw = dict(errno=(None, EDOM), req=0, forbid=DIVZ | OVER) if r.is_nan() else {}
                    add("quantize", [x, y], "nan" if r.is_nan() else ("q", r, ey), mode=m, **kw)
        for k, lo, hi in digit_ranges(w):
            for e in (f.etiny, -p, 0, 1, etop):
                add("llquantexp", [coef(s, lo, hi, e)], None, intres=(e, e))
                add("samequantum", [coef(s, lo, hi, e), coef(1 - s, 1, 9, e)], None, intres=(1, 1))
                add("samequantum", [coef(s, lo, hi, e), coef(s, 1, 9, e + (1 if e < etop else -1))], None, intres=(0, 0))
                add("quantum", [at(s, lo, e)], ("q", dec(0, 1, e), e))
        for e in sorted({f.etiny, -p, -1, 0, 1, p, etop}):
            z = A("zero", s, rep=(0, e))
            add("llquantexp", [z], None, intres=(e, e))
            add("quantum", [z], ("q", dec(0, 1, e), e))
            for ey in (f.etiny, -1, 0, 2, etop):
                add("samequantum", [z, at(s, 25, ey)], None, intres=(int(e == ey),) * 2)
                add("samequantum", [at(s, 25, ey), z], None, intres=(int(e == ey),) * 2)
                add("quantize", [z, at(s, 25, ey)], ("q", dec(s, 0, ey), ey))
                r = cx.quantize(dec(s, 25, ey), dec(0, 0, e))
                kw = dict(errno=(None, EDOM), req=0, forbid=DIVZ | OVER) if r.is_nan() else {}
                add("quantize", [at(s, 25, ey), z], "nan" if r.is_nan() else ("q", r, e), **kw)
        # ---- fmod, remainder, fdim, fma
        for cx_, ex in F:
            x = dec(s, cx_, ex)
            for cy, ey in F:
                if (cx_ + cy + ex) % 3 and (cx_, cy) != (top, 1):
                    continue
                for sy in (0, 1):
                    y = dec(sy, cy, ey)
                    d = x - y if 0 else BIG.subtract(x, y)
                    gap = x.adjusted() - y.adjusted()
                    a, b = at(s, cx_, ex), at(sy, cy, ey)
                    # positive difference
                    if d > 0:
                        r = cx.plus(d)
                        if BIG.compare(r, d) == 0 or r.is_infinite():
                            add("fdim", [a, b], want(r, 0), **(dict(OVF) if r.is_infinite() else {}))
                    else:
                        add("fdim", [a, b], "+0")
                    if gap > 60 and (cx_ + cy + ex + ey) % 5 or (sy and gap > 10):
                        continue
                    fm = x if gap < -1 else BIG.remainder(x, y)
                    if gap < 40:
                        add("fmod", [a, b], want(fm, s))
                    if gap < -1:
                        rn = x
                    else:
                        rn = BIG.remainder_near(x, y)
                    add("remainder", [a, b], want(rn, s))
        trip = [("3", "4", "5"), ("3", "4", "-12"), ("-3", "4", "12"), ("1.5", "2", "-0.5"), ("9" * p, "9" * p, "-" + str(10 ** p * (10 ** p - 2))),
                ("9" * p, "10", "9"), ("1" + "0" * (p - 2) + "1", "1" + "0" * (p - 2) + "1", "-1E%d" % (2 * p - 2)), ("1E%d" % (emin // 2), "1E%d" % (emin // 2), "1"),
                ("1E%d" % (f.emax // 2 + 1), "1E%d" % (f.emax // 2 + 1), "-1E%d" % f.emax), ("0.1", "0.1", "0.01"), ("7", "0", "5"), ("7", "0", "-5"), ("0", "0", "1E%d" % f.etiny)]
        rnd = random.Random(7 + w)
        for i in range(160):
            n1, n2, n3 = rnd.choice((1, 2, p // 2, p)), rnd.choice((1, 3, p // 2 + 1, p)), rnd.choice((1, p // 2, p))
            cx1, cy1, cz1 = (rnd.randrange(10 ** (n - 1), 10 ** n) for n in (n1, n2, n3))
            e1, e2 = rnd.choice((-p, 0, 3, f.etiny // 2, f.emax // 2 - p)), rnd.choice((-1, 0, 5, f.etiny // 2 + 3, f.emax // 2))
            e3 = e1 + e2 + rnd.randrange(-p - 2, n1 + n2 + 2)
            if f.etiny <= e3 <= etop:
                trip.append(("%dE%d" % (cx1, e1), "%dE%d" % (cy1, e2), "%s%dE%d" % ("-" if i % 2 else "", cz1, e3)))
        for x, y, z in trip:
            X, Y, Z = (D(x).copy_negate() if s else D(x)), (D(y).copy_negate() if s else D(y)), D(z)
            if any(stored(w, t.copy_abs()) is None for t in (X, Y, Z) if t):
                continue
            r = cx.fma(X, Y, Z)
            kw = dict(OVF) if r.is_infinite() else {}
            mk = lambda t: A("zero", int(t.is_signed())) if t == 0 else at(int(t < 0), *stored(w, t.copy_abs()))
            add("fma", [mk(X), mk(Y), mk(Z)], want(r, r.is_signed()), **kw)
            for m in (1, 2, 3, 4):
                r = ctxw(w, m).fma(X, Y, Z)
                kw = dict(OVF, errno=(None, ERANGE)) if BIG.fma(X, Y, Z).copy_abs() >= D(10) ** (f.emax + 1) else {}
                add("fma", [mk(X), mk(Y), mk(Z)], want(r, r.is_signed()), mode=m, **kw)
    return c
