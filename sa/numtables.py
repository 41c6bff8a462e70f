"""Mathematical definitions of the decimal constants and of the rational approximations the elementary functions
are built from.  Everything is evaluated with mpmath at 60 digits; the library's numbers are only ever the thing
being checked, never the reference.

RULES is a list of (obligation, names it reads, function(view) -> list of problems).
view(name) gives the list of the constant's elements as exact rationals (mpf).
"""
import sys
try:
    import mpmath
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import mpmath
from mpmath import mpf, mp
mp.dps = 60

RULES = []


def near(what, got, want, tol):
    d = abs(got - want)
    if d > tol:
        return ["%s holds %s, its definition gives %s" % (what, mpmath.nstr(got, 36), mpmath.nstr(want, 36))]
    return []


def const(name, want, rel="1e-33", abs_=None):
    def f(v):
        w = want()
        return near(name, v(name)[0], w, mpf(abs_) if abs_ else abs(w) * mpf(rel))
    RULES.append((name, [name], f))


def pair(a, b, want, tol="2e-37"):
    RULES.append(("%s+%s" % (a, b), [a, b],
                  lambda v: near("%s+%s" % (a, b), v(a)[0] + v(b)[0], want(), mpf(tol))))


def array(name, want, rel="1e-33", first=0, count=None):
    """want(i) -> value or None"""
    def f(v):
        out = []
        t = v(name)
        for i in range(first, min(len(t), count or len(t))):
            w = want(i)
            if w is not None:
                out += near("%s[%d]" % (name, i), t[i], w, abs(w) * mpf(rel))
        return out
    RULES.append((name, [name], f))


def neval(x, p):
    y = mpf(0)
    for c in reversed(p):
        y = y * x + c
    return y


def deval(x, p):
    y = mpf(1)
    for c in reversed(p):
        y = y * x + c
    return y


def rational(num, den, lo, hi, target, tol, more=(), x_of=lambda x: x, n=47):
    """target(x, R, v) -> (value computed with R, reference)"""
    def f(v):
        P = sum((v(c) for c in num), []) if isinstance(num, (list, tuple)) else v(num)
        Q = (sum((v(c) for c in den), []) if isinstance(den, (list, tuple)) else v(den)) if den else None
        worst, at = mpf(0), None
        for i in range(n + 1):
            x = lo + (hi - lo) * mpf(2 * i + 1) / (2 * n + 2)
            z = x_of(x)
            R = neval(z, P) / (deval(z, Q) if Q else 1)
            g, w = target(x, R, v)
            d = abs(g - w) / tol(w)
            if d > worst:
                worst, at = d, x
        f.worst = worst
        if worst > 1:
            return ["the rational approximation %s/%s is off by %s times its tolerance at x=%s" %
                    (num if isinstance(num, str) else num[0] + "..", den if isinstance(den, str) else
                     (den[0] + ".." if den else "1"), mpmath.nstr(worst, 5), mpmath.nstr(at, 8))]
        return []
    names = (list(num) if isinstance(num, (list, tuple)) else [num]) + \
        (list(den) if isinstance(den, (list, tuple)) else ([den] if den else [])) + list(more)
    label = num if isinstance(num, str) else num[0] + ".." + num[-1]
    f.worst = None
    RULES.append((label, names, f))


Q = lambda a, b=1: mpf(a) / mpf(b)
REL = lambda t: (lambda w: abs(w) * mpf(t))
ABS = lambda t: (lambda w: mpf(t))

# ---- erf / erfc
const("efx", lambda: 2 / mpmath.sqrt(mp.pi) - 1)
const("efx8", lambda: 8 * (2 / mpmath.sqrt(mp.pi) - 1))
rational("TN1", "TD1", mpf(0), Q(7, 8), lambda x, R, v: (x + x * R, mpmath.erf(x)), REL("2e-33"), x_of=lambda x: x * x)
rational("TN2", "TD2", Q(-1, 8), mpf(0), lambda s, R, v: (v("erf_const")[0] + R, mpmath.erf(1 + s)), REL("2e-33"),
         more=["erf_const"])
for _k in range(13, 21):
    def _mk(k):
        c = Q(k - 11, 8)
        a, b = "C%da" % k, "C%db" % k
        pair(a, b, lambda: mpmath.erfc(c))
        rational("RNr%d" % k, "RDr%d" % k, mpf(0), Q(1, 8),
                 lambda x, R, v: (v(a)[0] + v(b)[0] + x * R, mpmath.erfc(c + x)), REL("2e-33"), more=[a, b])
    _mk(_k)
for _k in range(1, 9):
    def _mk(k):
        lo, hi = (Q(1, 107) if k == 1 else Q(k - 1, 8)), (Q(4, 5) if k == 7 else Q(k, 8))
        if k == 8:
            return                      # 1/x in [7/8,1): never used, erfc(x < 1.25) takes another branch
        rational("RNr%d" % k, "RDr%d" % k, lo, hi,
                 lambda z, R, v: (R, mpmath.log(mpmath.erfc(1 / z) / z) + 1 / (z * z) + Q(9, 16)),
                 REL("3e-33"), x_of=lambda z: z * z)
    _mk(_k)

# ---- lgamma
const("ls2pi", lambda: mpmath.log(mpmath.sqrt(2 * mp.pi)))
rational("RASY", None, Q(1, 1000), Q(741, 10000),
         lambda z, R, v: ((1 / z - Q(1, 2)) * mpmath.log(1 / z) - 1 / z + mpmath.log(2 * mp.pi) / 2 + z * R, mpmath.loggamma(1 / z)),
         REL("3e-33"), x_of=lambda z: z * z)
for _n in range(3, 14):
    def _mk(n):
        a, b = "lgam%da" % n, "lgam%db" % n
        pair(a, b, lambda: mpmath.loggamma(n), "2e-36")
        rational("RN%d" % n, "RD%d" % n, Q(-1, 4) if n == 3 else Q(-1, 2), Q(1, 2),
                 lambda x, R, v: (v(a)[0] + v(b)[0] + x * R, mpmath.loggamma(n + x)), REL("2e-33"), more=[a, b])
    _mk(_n)
for _nm, _c, _lo, _hi in (("2r5", Q(5, 2), Q(-1, 8), Q(1, 4)), ("1r75", Q(7, 4), Q(-1, 8), Q(1, 8)),
                          ("1r25", Q(5, 4), Q(-1, 8), Q(1, 8))):
    def _mk(nm, c, lo, hi):
        a, b = "lgam%sa" % nm, "lgam%sb" % nm
        pair(a, b, lambda: mpmath.loggamma(c))
        rational("RN" + nm, "RD" + nm, lo, hi,
                 lambda x, R, v: (v(a)[0] + v(b)[0] + x * R, mpmath.loggamma(c + x)), REL("2e-33"), more=[a, b])
    _mk(_nm, _c, _lo, _hi)
rational("RN2", "RD2", Q(-1, 8), Q(3, 8), lambda x, R, v: (x * R, mpmath.loggamma(2 + x)), REL("2e-33"))
rational("RN1", "RD1", mpf(0), Q(1, 8), lambda x, R, v: (x * R, mpmath.loggamma(1 + x)), REL("2e-33"))
rational("RNr9", "RDr9", Q(-1, 8), mpf(0), lambda x, R, v: (x * R, mpmath.loggamma(1 + x)), REL("2e-33"))


def _x0():
    return mpmath.findroot(mpmath.digamma, mpf("1.4616321449683623412626595423257213"))


pair("x0a", "x0b", _x0, "1e-34")
pair("y0a", "y0b", lambda: mpmath.loggamma(_x0()), "1e-35")
rational("RN1r5", "RD1r5", mpf("-0.0867"), mpf("0.1634"),
         lambda x, R, v: (v("y0a")[0] + v("y0b")[0] + x * x * R, mpmath.loggamma(v("x0a")[0] + v("x0b")[0] + x)),
         REL("2e-33"), more=["x0a", "x0b", "y0a", "y0b"])

# ---- asin / acos
pair("pio2_hi", "pio2_lo", lambda: mp.pi / 2, "1e-33")
const("pio4_hi", lambda: mp.pi / 4, "2e-33")
const("asinr5625", lambda: mpmath.asin(Q(9, 16)))
const("acosr5625", lambda: mpmath.acos(Q(9, 16)))
const("acosr4375", lambda: mpmath.acos(Q(7, 16)))
const("pimacosr5625", lambda: mp.pi - mpmath.acos(Q(9, 16)))
const("pimacosr4375", lambda: mp.pi - mpmath.acos(Q(7, 16)))
_pS = ["pS%d" % i for i in range(10)]
_qS = ["qS%d" % i for i in range(9)]
_rS = ["rS%d" % i for i in range(11)]
_sS = ["sS%d" % i for i in range(10)]
rational(_pS, _qS, mpf(0), Q(1, 2), lambda x, R, v: (x + x * x * x * R, mpmath.asin(x)), REL("2e-33"), x_of=lambda x: x * x)
rational(_rS, _sS, Q(-1, 16), Q(1, 16),
         lambda x, R, v: (x * R, v.arc()(Q(9, 16) + x) - v.arc()(Q(9, 16))), ABS("2e-33"))
rational(["P%d" % i for i in range(11)], ["Q%d" % i for i in range(10)], Q(-1, 16), Q(1, 16),
         lambda x, R, v: (x * R, mpmath.acos(Q(7, 16) + x) - mpmath.acos(Q(7, 16))), ABS("2e-33"))

# ---- cube root, exp, log
const("CBRT10", lambda: mpmath.cbrt(10))
const("CBRT100", lambda: mpmath.cbrt(100))
const("CBRT10I", lambda: mpmath.cbrt(Q(1, 10)))
const("CBRT100I", lambda: mpmath.cbrt(Q(1, 100)))
const("__LN_10", lambda: mpmath.log(10))
const("__1_LN_10", lambda: 1 / mpmath.log(10))
pair("LN10_0", "LN10_1", lambda: mpmath.log(10), "1e-62")
pair("ln10a", "ln10b", lambda: mpmath.log(10), "1e-36")
array("__LN2digits", lambda i: mpmath.log(Q(i, 100)), first=1)
array("__factorialDD", lambda i: mpmath.factorial(i), rel="1e-15")
array("__oneOverfactDD", lambda i: 1 / mpmath.factorial(i), rel="1e-15")
array("__expIntXDL", lambda i: mpmath.exp(i))


def _exptbl(name):
    def f(v):
        t = v(name)
        out = []
        for i in range(0, len(t) - 2, 3):
            hi, lo, o = t[i:i + 3]
            out += near("%s[%d]: exp(hi+lo)" % (name, i // 3), mpmath.exp(hi + lo), o, o * mpf("1e-45"))
        return out
    RULES.append((name, [name], f))


_exptbl("exptbl1")
_exptbl("exptbl2")


def _lnt(v):
    t = v("lntvals")
    out = []
    for i in range(0, len(t) - 1, 2):
        x, l = t[i:i + 2]
        w = Q(100 + i // 2, 100) if i // 2 < 100 else Q(i // 2 + 100, 1000)
        out += near("lntvals[%d].t" % (i // 2), x, w, mpf("1e-40"))
        out += near("lntvals[%d].lnt" % (i // 2), l, mpmath.log(x) - (x - 1), abs(mpmath.log(x) - (x - 1)) * mpf("1e-33") + mpf("1e-38"))
    return out


RULES.append(("lntvals", ["lntvals"], _lnt))
_l = ["l%d" % i for i in range(3, 16)]
rational(_l, None, Q(-1, 128), Q(1, 128),
         lambda x, R, v: (x - x * x / 2 + x ** 3 * R, mpmath.log1p(x)), REL("2e-36"))
_P = ["P%d" % i for i in range(1, 7)]
rational(_P, None, Q(-53, 1000000), Q(53, 1000000),
         lambda x, R, v: (x + x * x * R, mpmath.expm1(x)), lambda w: mpf("2e-38"))
