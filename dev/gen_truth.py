"""Writes sa/truth.json: the exact ranges of the elementary functions on the operand intervals S14 uses. Run with python3-vt (mpmath)."""
import json
import os
import random
import sys
import mpmath
from mpmath import mp, mpf
from decimal import Decimal as D, getcontext
mp.dps = 80
getcontext().prec = 60
P = {32: 7, 64: 16, 128: 34}
EMAX = {32: 96, 64: 384, 128: 6144}
ETINY = {32: -101, 64: -398, 128: -6176}
LN10 = D("2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997205089598298341967784042286")


def m(x):
    return mpf(str(x))


F = {
    "exp": mpmath.exp, "exp2": lambda x: mpf(2) ** x, "expm1": mpmath.expm1, "log": mpmath.log, "log2": lambda x: mpmath.log(x) / mpmath.log(2),
    "log10": mpmath.log10, "log1p": mpmath.log1p, "sqrt": mpmath.sqrt,
    "cbrt": lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x),
    "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan,
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh, "asinh": mpmath.asinh, "acosh": mpmath.acosh, "atanh": mpmath.atanh,
    "erf": mpmath.erf, "erfc": mpmath.erfc, "tgamma": mpmath.gamma, "lgamma": lambda x: mpmath.log(abs(mpmath.gamma(x))) if x < 0 or x < 50 else mpmath.loggamma(x).real,
    "hypot": mpmath.hypot, "pow": mpmath.power, "atan2": mpmath.atan2,
}


def domains(fn, w):
    """[(lo, hi, log-uniform?, signs)]: the operands, cut where the code or the function changes character"""
    big = D(EMAX[w]) * LN10
    tiny = D(10) ** (ETINY[w] + 2 * P[w])
    huge = D(10) ** (EMAX[w] - 1)
    lim = -(D(EMAX[w] - 2) * LN10)
    if fn == "exp":
        return [("1e-5", 1, 1, "+-"), (1, 20, 0, "+-"), (20, big - 1, 0, "+"), (20, big - 5, 0, "-"), (big - 2, big, 0, "+")]
    if fn == "exp2":
        l2 = D("3.3219280948873623478703194294893901758648313930245806")
        return [("1e-5", 1, 1, "+-"), (1, 20, 0, "+-"), (20, D(EMAX[w]) * l2 - 1, 0, "+"), (20, D(EMAX[w]) * l2 - 8, 0, "-")]
    if fn == "expm1":
        return [("1e-5", "0.4", 1, "+-"), ("0.4", 1, 0, "+-"), (1, 20, 0, "+-"), (20, big - 1, 0, "+"), (20, 80, 0, "-")]
    if fn in ("log", "log2", "log10"):
        return [(tiny, "1e-5", 1, "+"), ("1e-5", "0.9", 1, "+"), ("0.9", "0.999", 0, "+"), ("1.001", "1.1", 0, "+"), ("1.1", 20, 1, "+"), (20, "1e9", 1, "+"), ("1e9", huge, 1, "+")]
    if fn == "log1p":
        return [("1e-3", "0.9", 1, "+-"), (1, 100, 1, "+"), (100, huge, 1, "+")]
    if fn == "sqrt":
        return [(tiny, 1, 1, "+"), (1, 100, 1, "+"), (100, huge, 1, "+")]
    if fn == "cbrt":
        return [(tiny, 1, 1, "+-"), (1, 1000, 1, "+-"), (1000, huge, 1, "+")]
    if fn in ("sin", "cos", "tan"):
        return [("1e-4", "0.1", 1, "+-"), ("0.1", "1.5", 0, "+-"), ("1.7", "3", 0, "+-"), ("3.2", "4.6", 0, "+-"), ("4.8", "6.2", 0, "+-"), ("6.4", 1000, 1, "+-")]
    if fn in ("asin", "acos", "atanh"):
        return [("1e-4", "0.1", 1, "+-"), ("0.1", "0.5", 0, "+-"), ("0.5", "0.9", 0, "+-"), ("0.9", "0.999", 0, "+-")]
    if fn == "atan":
        return [("1e-5", "0.1", 1, "+-"), ("0.1", 1, 0, "+-"), (1, 10, 0, "+-"), (10, "1e6", 1, "+-")]
    if fn in ("sinh", "cosh"):
        return [("1e-4", "0.1", 1, "+-"), ("0.1", 1, 0, "+-"), (1, 20, 0, "+-"), (20, big - 2, 0, "+-")]
    if fn == "tanh":
        return [("1e-4", "0.1", 1, "+-"), ("0.1", 1, 0, "+-"), (1, 8, 0, "+-"), (8, 100, 1, "+-")]
    if fn == "asinh":
        return [("1e-4", "0.1", 1, "+-"), ("0.1", 1, 0, "+-"), (1, 20, 0, "+-"), (20, "1e9", 1, "+-"), ("1e9", huge, 1, "+")]
    if fn == "acosh":
        return [("1.001", "1.1", 0, "+"), ("1.1", 2, 0, "+"), (2, 20, 0, "+"), (20, "1e9", 1, "+"), ("1e9", huge, 1, "+")]
    if fn in ("erf", "erfc"):
        return [("1e-4", "0.1", 1, "+-"), ("0.1", 1, 0, "+-"), (1, 2, 0, "+-"), (2, 4, 0, "+-"), (4, 9, 0, "+-")] + ([(9, "14.5", 0, "+")] if fn == "erfc" else [])
    if fn == "tgamma":
        return [("1e-3", 1, 1, "+"), (1, 5, 0, "+"), (5, 20, 0, "+"), (20, {32: 65, 64: 200, 128: 1700}[w], 0, "+"), ("0.05", "0.45", 0, "-"), ("1.05", "1.5", 0, "-"), ("2.1", "2.9", 0, "-")]
    if fn == "lgamma":
        return [("1e-3", "0.5", 1, "+"), ("0.5", "0.95", 0, "+"), ("1.05", "1.4", 0, "+"), ("1.5", "1.9", 0, "+"), ("2.1", 14, 0, "+"), (14, 100, 1, "+"), (100, "1e6", 1, "+"),
                ("0.05", "0.45", 0, "-")]


COVER = [("exp", "0.1", "3.1", 60), ("exp", "-3.1", "-0.1", 60), ("exp2", "0.1", "3.1", 60), ("expm1", "0.1", "3.1", 60), ("log", "0.1", "0.9", 80), ("log", "1.1", "9.1", 80),
         ("log2", "1.1", "9.1", 80), ("log10", "1.1", "9.1", 80), ("log1p", "0.1", "3.1", 60), ("sqrt", "0.1", "4.1", 40), ("cbrt", "0.4", "4.4", 80),
         ("sin", "0.1", "1.5", 56), ("cos", "0.1", "1.5", 56), ("tan", "0.1", "1.5", 56), ("asin", "0.1", "0.9", 40), ("acos", "0.1", "0.9", 40), ("atan", "0.1", "2.1", 50),
         ("sinh", "0.1", "3.1", 60), ("cosh", "0.1", "3.1", 60), ("tanh", "0.1", "3.1", 60), ("asinh", "0.1", "4.1", 40), ("acosh", "1.1", "4.1", 30), ("atanh", "0.1", "0.9", 40),
         ("erf", "0.1", "1.2", 22), ("erfc", "0.1", "1.2", 22), ("tgamma", "1.6", "5.6", 80), ("lgamma", "2.1", "6.1", 80)]


# where relative accuracy is hard: near zeros and singularities of the function
HARD = [("log", 1, "+-"), ("log2", 1, "+-"), ("log10", 1, "+-"), ("acos", 1, "-"), ("asin", 1, "-"), ("atanh", 1, "-"), ("acosh", 1, "+"), ("lgamma", 1, "+-"), ("lgamma", 2, "+-"),
        ("tgamma", -1, "+-"), ("tgamma", -3, "+-"), ("lgamma", -2, "+-"), ("sin", "3.14159265358979323846264338327950288419716939937510", "+-"),
        ("cos", "1.57079632679489661923132169163975144209858469968755", "+-"), ("tan", "1.57079632679489661923132169163975144209858469968755", "+-"),
        ("tan", "3.14159265358979323846264338327950288419716939937510", "+-"), ("cos", 0, "+-"), ("exp", 0, "+-"), ("cosh", 0, "+-"), ("erfc", 0, "+-"), ("erf", 0, "+-"),
        ("sin", 0, "+-"), ("tan", 0, "+-"), ("asin", 0, "+-"), ("acos", 0, "+-"), ("atan", 0, "+-")]


def rounded(x, w, cut=0):
    t = D(x)
    e = t.adjusted() - P[w] + 1 + cut
    return t.quantize(D((0, (1,), e)))


def span(fn, *iv):
    """exact range of fn over a box on which it is monotone in each argument"""
    c = []
    pts = [[]]
    for lo, hi in iv:
        pts = [p + [x] for p in pts for x in (lo, hi, (lo + hi) / 2)]
    for p in pts:
        try:
            v = F[fn](*[m(x) for x in p])
        except Exception:
            return None
        if isinstance(v, mpmath.mpc):
            return None
        c.append(v)
    return min(c), max(c)


def out(x):
    return mpmath.nstr(x, 45)


def main():
    rows = []
    R = random.Random(20261119)
    for w in (32, 64, 128):
        lo_ok, hi_ok = mpf(10) ** (ETINY[w] + P[w] + 1), mpf(10) ** EMAX[w] * 9

        def emit(fn, iv, kind):
            s = span(fn, *iv)
            if s is None or not (lo_ok < min(abs(s[0]), abs(s[1])) and max(abs(s[0]), abs(s[1])) < hi_ok and s[0] * s[1] > 0):
                return
            rows.append([fn, w, kind, [[str(a), str(b)] for a, b in iv], [out(s[0]), out(s[1])]])
        for fn in F:
            if fn in ("hypot", "pow", "atan2"):
                continue
            for a, b, lg, signs in domains(fn, w):
                a, b = D(a), D(b)
                for s in signs:
                    sg = -1 if s == "-" else 1
                    n = 8 if fn in ("sin", "cos", "tan", "atan") else 14
                    for i in range(n + 24):
                        t = D((i + R.random()) / n if i < n else R.random())
                        x = a * (b / a) ** t if lg else a + (b - a) * t
                        # a value of full length, and one of few digits
                        x = rounded(x, w, 0 if i % 2 else P[w] - R.choice((1, 2, 3)))
                        if x == 0:
                            continue
                        u = D((0, (1,), x.adjusted() - P[w] + 1))
                        y = x + u
                        emit(fn, [(sg * x, sg * y) if sg > 0 else (-y, -x)], "n" if i < n else "N")
        for fn, at, signs in HARD:
            at = D(at)
            for s in signs:
                for k in range(1, P[w]):
                    d = D(10) ** -k * D(R.uniform(1, 9)) * (1 if s == "+" else -1)
                    x = rounded(at + d, w)
                    u = D((0, (1,), x.adjusted() - P[w] + 1))
                    emit(fn, [(x, x + u) if x > 0 else (x - u, x)], "h")
        # a cover of the central ranges by adjacent intervals
        for fn, lo, hi, n in COVER:
            if w == 128 and fn in ("exp", "log", "tgamma"):          # an interval spans too many table entries
                continue
            lo, hi = D(lo), D(hi)
            for i in range(n):
                a, b = lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 1) / n
                emit(fn, [(rounded(a, w), rounded(b, w))], "w")
        for fn in ("hypot", "pow", "atan2"):
            for i in range(260):
                if fn == "pow":
                    k = i % 4
                    if k == 0:
                        x, y = D(R.uniform(0.1, 20)), D(R.uniform(-8, 8))
                    elif k == 1:
                        x, y = D(R.choice([2, 3, 5, 7, 10])), D(R.randint(-9, 15))
                    elif k == 2:
                        x = D(10) ** D(R.uniform(-20, 20))
                        y = D(R.uniform(-3, 3))
                    else:
                        x, y = D(R.uniform(0.99, 1.01)), D(R.uniform(-1000, 1000))
                else:
                    q = D(R.uniform(-8, 8))
                    x, y = D(R.uniform(0.1, 20)) * D(10) ** (q * (i % 3)), D(R.uniform(0.1, 20)) * D(10) ** (q * (i % 3))
                    if i % 4 == 1:
                        x = -x
                    if i % 4 > 1:
                        y = -y
                x, y = rounded(x, w, 0 if i % 2 else P[w] - 3), rounded(y, w, 0 if i % 3 else P[w] - 2)
                u = D((0, (1,), x.adjusted() - P[w] + 1)) * (1 if x > 0 else -1)
                iv = sorted((x, x + u))
                emit(fn, [tuple(iv), (y, y)], "n" if i < 60 else "N")
    # far from the central ranges: large, tiny and badly scaled operands
    R = random.Random(7717)
    for w in (32, 64, 128):
        lo_ok, hi_ok = mpf(10) ** (ETINY[w] + P[w] + 1), mpf(10) ** EMAX[w] * 9
        big = D(EMAX[w]) * LN10
        ez, eb = ETINY[w] + P[w] + 2, EMAX[w] - 1

        def put(fn, *xs):
            iv = []
            for i, x in enumerate(xs):
                u = D((0, (1,), x.adjusted() - P[w] + 1)) * (1 if x > 0 else -1)
                iv.append(tuple(sorted((x, x + u if i == 0 else x))))
            s = span(fn, *iv)
            if s is None or not (lo_ok < min(abs(s[0]), abs(s[1])) and max(abs(s[0]), abs(s[1])) < hi_ok and s[0] * s[1] > 0):
                return
            rows.append([fn, w, "f", [[str(a), str(b)] for a, b in iv], [out(s[0]), out(s[1])]])

        def val(x, i):
            return rounded(x, w, 0 if i % 2 else P[w] - R.choice((1, 2, 3)))
        for fn, a, b, lg, signs in [("lgamma", "1e6", D(10) ** (eb - 4), 1, "+"), ("lgamma", 10, "1e12", 1, "+"), ("lgamma", "2.05", 60, 0, "-"), ("tgamma", "3.05", 25, 0, "-"),
                                    ("atan", "1e6", D(10) ** eb, 1, "+-"), ("sin", 1000, "1e7", 1, "+-"), ("cos", 1000, "1e7", 1, "+-"), ("tan", 1000, "1e7", 1, "+-"),
                                    ("expm1", 80, big, 0, "-"), ("tanh", 20, "1e6", 1, "+-"), ("erf", 9, 100, 1, "+-"), ("erfc", 9, 100, 1, "-"), ("exp", 20, big * D("0.95"), 0, "-"),
                                    ("acosh", "1e9", D(10) ** eb, 1, "+"), ("log1p", 1, D(10) ** eb, 1, "+"), ("asinh", "1e-4", D(10) ** eb, 1, "-"), ("sqrt", D(10) ** ez, D(10) ** eb, 1, "+"),
                                    ("cbrt", D(10) ** ez, D(10) ** eb, 1, "+-"), ("log", D(10) ** ez, D(10) ** eb, 1, "+"), ("log2", D(10) ** ez, D(10) ** eb, 1, "+"),
                                    ("log10", D(10) ** ez, D(10) ** eb, 1, "+"), ("cosh", "0.001", big, 1, "-"), ("sinh", "0.01", big, 1, "-")]:
            a, b = D(a), D(b)
            for sg in signs:
                for i in range(12):
                    t = D((i + R.random()) / 12)
                    x = a * (b / a) ** t if lg else a + (b - a) * t
                    x = val(x, i) * (-1 if sg == "-" else 1)
                    if x == x.to_integral_value() and fn in ("lgamma", "tgamma") and x < 0:
                        continue
                    put(fn, x)
        for i in range(60):
            e = D(R.uniform(ez, eb))
            d = D(R.uniform(-P[w] - 3, P[w] + 3)) if i % 3 else D(R.uniform(-1, 1))
            x, y = D(10) ** e, D(10) ** min(max(e + d, ez), eb)
            x, y = val(x, i), val(y, i // 2)
            if i % 4 == 1:
                x = -x
            if i % 4 > 1:
                y = -y
            put("hypot", x, y)
            put("atan2", x, y)
            x = abs(x)
            t = D(R.uniform(ez, eb)) / (x.ln() / LN10) if x != 1 else D(1)
            put("pow", x, val(t, i))
            n = D(R.randint(-40, 60))
            if n:
                v = val(D(10) ** (D(R.uniform(ez, eb)) / n), i)
                put("pow", v if i % 3 else -v, n)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa", "truth.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(r) for r in rows) + "\n]\n")
    print(len(rows))


main()
