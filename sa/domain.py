"""Abstract values.

IV  integer: interval under the C type's signedness, and a small set of known-bit patterns
DV  decimal floating point: a set of atoms (class, sign, magnitude interval, ...)
FV  binary floating point: interval
PV  pointer: object + offset
"""
import decimal
from decimal import Decimal as D
from collections import namedtuple

CTXF = decimal.Context(prec=110, rounding=decimal.ROUND_FLOOR, Emin=-decimal.MAX_EMAX + 10, Emax=decimal.MAX_EMAX,
                       traps=[])
CTXC = decimal.Context(prec=110, rounding=decimal.ROUND_CEILING, Emin=-decimal.MAX_EMAX + 10, Emax=decimal.MAX_EMAX,
                       traps=[])
CTXN = decimal.Context(prec=110, rounding=decimal.ROUND_HALF_EVEN, Emin=-decimal.MAX_EMAX + 10,
                       Emax=decimal.MAX_EMAX, traps=[])
decimal.setcontext(CTXN)
# "round for reround": a bound kept this way rounds to any shorter precision exactly as the true value does
CTX5 = decimal.Context(prec=110, rounding=decimal.ROUND_05UP, Emin=-decimal.MAX_EMAX + 10, Emax=decimal.MAX_EMAX,
                       traps=[])

MAXDJ = 16


# ---------------------------------------------------------------- integers
class IV:
    __slots__ = ("w", "sg", "lo", "hi", "dj", "prov")

    def __init__(self, w, sg, lo, hi, dj, prov=None):
        self.w, self.sg, self.lo, self.hi, self.dj, self.prov = w, sg, lo, hi, dj, prov

    def __repr__(self):
        if self.lo == self.hi:
            return "%d" % self.lo if abs(self.lo) < 1 << 20 else hex(self.lo)
        s = "[%s,%s]" % (self.lo, self.hi)
        if self.dj != ((0, 0),):
            s += "{%s}" % "|".join("%x/%x" % (v, m) for m, v in self.dj[:6])
        return s

    @property
    def single(self):
        return self.lo == self.hi

    def key(self):
        return ("I", self.w, self.lo, self.hi, self.dj)


def rng(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def tos(v, w, sg):
    """unsigned pattern -> interpretation"""
    if sg and v >> (w - 1) & 1:
        return v - (1 << w)
    return v


def djrange(m, v, w, sg):
    full = (1 << w) - 1
    unk = full & ~m
    if not sg:
        return v, v | unk
    sb = 1 << (w - 1)
    if m & sb:
        if v & sb:
            return v - (1 << w), (v | unk) - (1 << w)
        return v, v | unk
    return (v | sb) - (1 << w), (v | unk) & ~sb


def iv(w, sg, lo=None, hi=None, dj=None, prov=None):
    """normalising constructor; None if empty."""
    rl, rh = rng(w, sg)
    lo = rl if lo is None else max(lo, rl)
    hi = rh if hi is None else min(hi, rh)
    if lo > hi:
        return None
    full = (1 << w) - 1
    if lo == hi:
        p = lo & full
        if dj is not None:
            for m, v in dj:
                if (p & m) == v:
                    break
            else:
                return None
        return IV(w, sg, lo, hi, ((full, p),), prov)
    if dj is None:
        dj = ((0, 0),)
    # leading bits shared by both ends
    if (lo >= 0) == (hi >= 0):
        x = (lo ^ hi) & full
        n = x.bit_length()
        pm = full & ~((1 << n) - 1)
        pv = lo & pm
    else:
        pm = pv = 0
    out = []
    seen = set()
    a, b = None, None
    for m, v in dj:
        if (m & pm) & (v ^ pv):
            continue
        m, v = m | pm, v | pv
        l, h = djrange(m, v, w, sg)
        if h < lo or l > hi:
            continue
        if (m, v) in seen:
            continue
        seen.add((m, v))
        out.append((m, v))
        a = l if a is None else min(a, l)
        b = h if b is None else max(b, h)
    if not out:
        return None
    lo, hi = max(lo, a), min(hi, b)
    if lo > hi:
        return None
    if len(out) == 1 and hi - lo < 8 and out[0][0] != full:
        m, v = out[0]
        out = [(full, x & full) for x in range(lo, hi + 1) if ((x & full) & m) == v]
        if not out:
            return None
        vals = [tos(v, w, sg) for _, v in out]
        lo, hi = min(vals), max(vals)
    if len(out) > MAXDJ:
        m, v = out[0]
        for m2, v2 in out[1:]:
            m = m & m2 & ~(v ^ v2)
            v &= m
        out = [(m, v)]
    if lo == hi:
        return IV(w, sg, lo, hi, ((full, lo & full),), prov)
    if len(out) == 1 and out[0][0] == full:
        v = tos(out[0][1], w, sg)
        return IV(w, sg, v, v, tuple(out), prov)
    return IV(w, sg, lo, hi, tuple(out), prov)


def ic(w, sg, v):
    full = (1 << w) - 1
    p = v & full
    t = tos(p, w, sg)
    return IV(w, sg, t, t, ((full, p),))


def itop(w, sg):
    lo, hi = rng(w, sg)
    return IV(w, sg, lo, hi, ((0, 0),))


def iset(w, sg, vals):
    full = (1 << w) - 1
    vals = sorted(set(tos(v & full, w, sg) for v in vals))
    return iv(w, sg, vals[0], vals[-1], tuple((full, v & full) for v in vals) if len(vals) <= MAXDJ else None)


def values(a):
    """explicit value list when all patterns are fully known."""
    full = (1 << a.w) - 1
    if all(m == full for m, v in a.dj):
        return [tos(v, a.w, a.sg) for m, v in a.dj]
    return None


def icast(a, w, sg):
    full = (1 << w) - 1
    if a.single:
        return ic(w, sg, a.lo)
    dj = []
    if w <= a.w:
        for m, v in a.dj:
            dj.append((m & full, v & full))
    else:
        ext = full & ~((1 << a.w) - 1)
        sb = 1 << (a.w - 1)
        for m, v in a.dj:
            if a.sg:
                if m & sb:
                    dj.append((m | ext, v | (ext if v & sb else 0)))
                else:
                    dj.append((m, v))
            else:
                dj.append((m | ext, v))
    rl, rh = rng(w, sg)
    if rl <= a.lo and a.hi <= rh:
        lo, hi = a.lo, a.hi
    elif a.w <= w and a.hi < 0 and not sg:
        lo, hi = a.lo + (1 << w), a.hi + (1 << w)
    elif a.w == w and sg and a.lo > rh:
        lo, hi = a.lo - (1 << w), a.hi - (1 << w)
    elif a.w > w and (a.lo >> w) == (a.hi >> w) and not sg:
        lo, hi = a.lo & full, a.hi & full
    else:
        lo = hi = None
    r = iv(w, sg, lo, hi, tuple(dj), a.prov)
    return r if r is not None else itop(w, sg)


def _bits2(a, b, f, w):
    out = set()
    for m1, v1 in a.dj:
        for m2, v2 in b.dj:
            out.add(f(m1, v1, m2, v2))
    return tuple(out)


def _and(m1, v1, m2, v2):
    z = (m1 & ~v1) | (m2 & ~v2)
    o = v1 & v2 & m1 & m2
    return (z | o, o)


def _or(m1, v1, m2, v2):
    o = v1 | v2
    z = (m1 & ~v1) & (m2 & ~v2)
    return (z | o, o)


def _xor(m1, v1, m2, v2):
    m = m1 & m2
    return (m, (v1 ^ v2) & m)


def _addbits(m1, v1, m2, v2, w, sub=False):
    # known trailing bits only
    full = (1 << w) - 1
    both = m1 & m2
    inv = ~both & full
    if not inv:
        n = w
    else:
        n = (inv & -inv).bit_length() - 1
    if n == 0:
        return (0, 0)
    mask = (1 << n) - 1
    r = (v1 - v2 if sub else v1 + v2) & mask
    return (mask, r)


CMP = {"<", ">", "<=", ">=", "==", "!="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


def ibin(op, a, b, w, sg):
    """result of an integer operation in type (w, sg); operands may have other types for shifts."""
    full = (1 << w) - 1
    if op in ("<<", ">>"):
        if a.single and a.lo == 0:
            return ic(w, sg, 0)
        if b.single:
            s = b.lo
            if s < 0 or s >= w:
                return itop(w, sg)
            if a.single:
                return ic(w, sg, (a.lo << s) if op == "<<" else (a.lo >> s))
            dj = []
            for m, v in a.dj:
                if op == "<<":
                    dj.append((((m << s) | ((1 << s) - 1)) & full, (v << s) & full))
                else:
                    hi = full & ~(full >> s)
                    if a.sg:
                        sb = 1 << (w - 1)
                        if m & sb:
                            dj.append(((m >> s) | hi, (v >> s) | (hi if v & sb else 0)))
                        else:
                            dj.append((m >> s, v >> s))
                    else:
                        dj.append(((m >> s) | hi, v >> s))
            if op == ">>":
                lo, hi = a.lo >> s, a.hi >> s
            else:
                lo, hi = a.lo << s, a.hi << s
                rl, rh = rng(w, sg)
                if lo < rl or hi > rh:
                    if lo >= 0 and not sg and (lo >> w) == (hi >> w):
                        lo, hi = lo & full, hi & full
                    else:
                        lo = hi = None
                elif lo >= 0 and s >= 16 and len(dj) == 1:
                    # keep which values of the two leading bits are possible: survives or-ing a sign bit
                    n = hi.bit_length() - 2
                    pre = range(max(lo, 0) >> n, (hi >> n) + 1) if n > 0 else ()
                    if 1 < len(pre) < 4:
                        m, v = dj[0]
                        top = full & ~((1 << n) - 1)
                        dj = [(m | top, (v & ~top) | (k << n)) for k in pre if not (m & top) & (v ^ (k << n))]
            return iv(w, sg, lo, hi, tuple(dj)) or itop(w, sg)
        bl, bh = max(b.lo, 0), min(b.hi, w - 1)
        if bl > bh:
            return itop(w, sg)
        if bh - bl <= 15:
            out = None
            for s in range(bl, bh + 1):
                r = ibin(op, a, ic(b.w, b.sg, s), w, sg)
                out = r if out is None else ijoin(out, r)
            return out
        if op == ">>" and a.lo >= 0:
            return iv(w, sg, a.lo >> bh, a.hi >> bl)
        if op == "<<" and a.lo >= 0 and (a.hi << bh) <= rng(w, sg)[1]:
            return iv(w, sg, a.lo << bl, a.hi << bh)
        return itop(w, sg)
    if a.single and b.single:
        x, y = a.lo, b.lo
        r = _conc(op, x, y, w, sg)
        if r is not None:
            return ic(w, sg, r)
        return itop(w, sg)
    if op == "&":
        lo = hi = None
        if a.lo >= 0 or b.lo >= 0:
            lo = 0
            hi = min([x.hi for x in (a, b) if x.lo >= 0])
            for x, y in ((a, b), (b, a)):
                if y.single and y.lo > 0 and (y.lo & (y.lo + 1)) == 0 and x.lo >= 0:
                    n = y.lo.bit_length()
                    if x.lo >> n == x.hi >> n:
                        lo, hi = x.lo & y.lo, x.hi & y.lo
        return iv(w, sg, lo, hi, _bits2(a, b, _and, w)) or itop(w, sg)
    if op == "|":
        lo = hi = None
        if a.lo >= 0 and b.lo >= 0:
            lo = max(a.lo, b.lo)
            hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            for x, y in ((a, b), (b, a)):
                if y.single and not y.lo & ((1 << (x.lo ^ x.hi).bit_length()) - 1):
                    lo, hi = x.lo | y.lo, x.hi | y.lo
        return iv(w, sg, lo, hi, _bits2(a, b, _or, w)) or itop(w, sg)
    if op == "^":
        return iv(w, sg, None, None, _bits2(a, b, _xor, w)) or itop(w, sg)
    va, vb = values(a), values(b)
    if va is not None and vb is not None and len(va) * len(vb) <= 64:
        s = set()
        for x in va:
            for y in vb:
                r = _conc(op, x, y, w, sg)
                if r is None:
                    s = None
                    break
                s.add(r & full)
            if s is None:
                break
        if s and len(s) <= MAXDJ:
            return iset(w, sg, s)
    if op in ("+", "-"):
        if op == "+":
            lo, hi = a.lo + b.lo, a.hi + b.hi
        else:
            lo, hi = a.lo - b.hi, a.hi - b.lo
        dj = None
        if len(a.dj) * len(b.dj) <= MAXDJ:
            dj = tuple(set(_addbits(m1, v1, m2, v2, w, op == "-") for m1, v1 in a.dj for m2, v2 in b.dj))
        return _wrap(w, sg, lo, hi, dj)
    if op == "*":
        c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return _wrap(w, sg, min(c), max(c), None)
    if op in ("/", "/[ex]"):
        if b.lo > 0 or b.hi < 0:
            c = [_tdiv(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(c), max(c)
            if a.lo <= 0 <= a.hi:
                lo, hi = min(lo, 0), max(hi, 0)
            return iv(w, sg, lo, hi)
        if not sg:
            return iv(w, sg, 0, a.hi)
        return itop(w, sg)
    if op == "%":
        if b.lo > 0:
            m = b.hi - 1
            lo = 0 if a.lo >= 0 else -min(m, -a.lo)
            hi = min(m, a.hi) if a.hi > 0 else 0
            if a.lo >= 0 and a.hi < b.lo:
                lo, hi = a.lo, a.hi
            return iv(w, sg, lo, hi)
        return itop(w, sg)
    if op == "max":
        return iv(w, sg, max(a.lo, b.lo), max(a.hi, b.hi))
    if op == "min":
        return iv(w, sg, min(a.lo, b.lo), min(a.hi, b.hi))
    return itop(w, sg)


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def _conc(op, x, y, w, sg):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "&":
        return x & y
    if op == "|":
        return x | y
    if op == "^":
        return x ^ y
    if op in ("/", "/[ex]"):
        return _tdiv(x, y) if y else None
    if op == "%":
        return x - y * _tdiv(x, y) if y else None
    if op == "max":
        return max(x, y)
    if op == "min":
        return min(x, y)
    if op == "mulh":
        return (x * y) >> w
    return None


def _wrap(w, sg, lo, hi, dj):
    rl, rh = rng(w, sg)
    if lo >= rl and hi <= rh:
        return iv(w, sg, lo, hi, dj) or itop(w, sg)
    if sg:
        # signed overflow is undefined; keep what is representable
        if lo > rh or hi < rl:
            return itop(w, sg)
        return iv(w, sg, max(lo, rl), min(hi, rh), dj) or itop(w, sg)
    m = 1 << w
    if (lo // m) == (hi // m):
        k = lo // m
        return iv(w, sg, lo - k * m, hi - k * m, dj) or itop(w, sg)
    return iv(w, sg, None, None, dj) or itop(w, sg)


def iun(op, a, w, sg):
    if op == "-":
        if a.single:
            return ic(w, sg, -a.lo)
        vs = values(a)
        if vs is not None:
            return iset(w, sg, [-x for x in vs])
        return _wrap(w, sg, -a.hi, -a.lo, None)
    if op == "~":
        full = (1 << w) - 1
        return iv(w, sg, ~a.hi if sg else full - a.hi, ~a.lo if sg else full - a.lo,
                  tuple((m, ~v & m) for m, v in a.dj))
    if op == "abs":
        if a.lo >= 0:
            return icast(a, w, sg)
        if a.hi <= 0:
            return icast(iun("-", a, a.w, a.sg), w, sg)
        return iv(w, sg, 0, max(-a.lo, a.hi))
    if op == "!":
        if a.single:
            return ic(w, sg, 0 if a.lo else 1)
        return iv(w, sg, 0, 1)
    return itop(w, sg)


def ijoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    dj = tuple(set(a.dj) | set(b.dj))
    return iv(a.w, a.sg, min(a.lo, b.lo), max(a.hi, b.hi), dj)


def icmp(op, a, b):
    """True/False/None"""
    if op == "==" or op == "!=":
        eq = None
        if a.hi < b.lo or b.hi < a.lo:
            eq = False
        elif a.single and b.single:
            eq = a.lo == b.lo
        else:
            for m1, v1 in a.dj:
                for m2, v2 in b.dj:
                    if not ((v1 ^ v2) & m1 & m2):
                        break
                else:
                    continue
                break
            else:
                eq = False
        if eq is None:
            return None
        return eq if op == "==" else not eq
    if op == "<":
        return True if a.hi < b.lo else False if a.lo >= b.hi else None
    if op == "<=":
        return True if a.hi <= b.lo else False if a.lo > b.hi else None
    if op == ">":
        return icmp("<", b, a)
    if op == ">=":
        return icmp("<=", b, a)
    return None


def irefine(op, a, b):
    """a restricted by (a op b); None if impossible."""
    lo, hi, dj = a.lo, a.hi, a.dj
    if op == "==":
        nd = []
        for m1, v1 in a.dj:
            for m2, v2 in b.dj:
                if not ((v1 ^ v2) & m1 & m2):
                    nd.append((m1 | m2, v1 | v2))
        if not nd:
            return None
        r = iv(a.w, a.sg, max(lo, b.lo), min(hi, b.hi), tuple(nd))
        if r is not None:
            r.prov = a.prov
        return r
    if op == "!=":
        if b.single:
            if a.single:
                return None if a.lo == b.lo else a
            full = (1 << a.w) - 1
            p = b.lo & full
            dj = tuple(x for x in dj if x != (full, p))
            if lo == b.lo:
                lo += 1
            if hi == b.lo:
                hi -= 1
            if not dj:
                return None
            return iv(a.w, a.sg, lo, hi, dj, a.prov)
        return a
    if op == "<":
        hi = min(hi, b.hi - 1)
    elif op == "<=":
        hi = min(hi, b.hi)
    elif op == ">":
        lo = max(lo, b.lo + 1)
    elif op == ">=":
        lo = max(lo, b.lo)
    return iv(a.w, a.sg, lo, hi, dj, a.prov)


# ---------------------------------------------------------------- decimals
Fmt = namedtuple("Fmt", "w p emax etiny")
FMT = {32: Fmt(32, 7, 96, -101), 64: Fmt(64, 16, 384, -398), 128: Fmt(128, 34, 6144, -6176)}


def fmt(w):
    return w if isinstance(w, Fmt) else FMT[w]


def fmax(w):
    f = fmt(w)
    return D((0, (9,) * f.p, f.emax - f.p + 1))


def fmin(w):
    return D((0, (1,), fmt(w).etiny))


def fminnorm(w):
    f = fmt(w)
    return D((0, (1,), -f.emax + 1))


MODES = {0: decimal.ROUND_HALF_EVEN, 1: decimal.ROUND_DOWN, 2: decimal.ROUND_CEILING,
         3: decimal.ROUND_FLOOR, 4: decimal.ROUND_HALF_UP}
HUGE = D("1E+1000000000000")
TINY = D("1E-1000000000000")

# kind: snan qnan inf zero fin ; sign 0/1 ; lo<=|x|<=hi ; par: None odd even int nonint ; rep: (coef, exp)
# enc: shape of the BID encoding ("s"/"l" small/large coefficient form; 0/1/2 position of a 128-bit coefficient), or None
Atom = namedtuple("Atom", "kind sign lo hi par rep enc", defaults=(None,))


def A(kind, sign=0, lo=None, hi=None, par=None, rep=None):
    return Atom(kind, sign, lo, hi, par, rep)


def fin(sign, lo, hi=None, par=None, rep=None):
    lo = D(lo)
    hi = lo if hi is None else D(hi)
    if lo == hi and par is None:
        par = parity(lo)
    return Atom("fin", sign, lo, hi, par, rep)


def parity(x):
    x = abs(x)
    if x == 0:
        return "even"
    t = x.as_tuple()
    if t.exponent > 0:
        return "even"
    if t.exponent < -400:
        n = x.normalize(CTXN).as_tuple()
        if n.exponent < 0:
            return "nonint"
    i = x.to_integral_value(decimal.ROUND_DOWN)
    if i != x:
        return "nonint"
    if i.adjusted() > 60:
        n = i.normalize(CTXN).as_tuple()
        if n.exponent > 0:
            return "even"
    return "odd" if i.as_tuple().digits[-1 if i.as_tuple().exponent == 0 else -1] % 2 and i.as_tuple().exponent == 0 else "even"


class DV:
    """w: 32/64/128, or 0 for an arbitrary-precision number; atoms: tuple."""
    __slots__ = ("w", "atoms")

    def __init__(self, w, atoms):
        self.w = w
        self.atoms = tuple(atoms)

    def __repr__(self):
        return "D%d{%s}" % (self.w, ",".join(show(a) for a in self.atoms))

    @property
    def single(self):
        return len(self.atoms) == 1 and (self.atoms[0].kind != "fin" or self.atoms[0].lo == self.atoms[0].hi)

    def key(self):
        return ("D", self.w, self.atoms)


def show(a):
    s = "-" if a.sign else "+"
    if a.kind == "fin":
        if a.lo == a.hi:
            return s + str(a.lo)
        return "%s[%s,%s]%s" % (s, short(a.lo), short(a.hi), a.par or "")
    return s + a.kind


def short(d):
    t = str(d)
    return t if len(t) < 14 else format(d, ".5E")


def dtop(w):
    if w == 0:
        lo, hi = TINY, HUGE
    else:
        lo, hi = fmin(w), fmax(w)
    return DV(w, [A("snan", 0), A("snan", 1), A("qnan", 0), A("qnan", 1), A("inf", 0), A("inf", 1),
                  A("zero", 0), A("zero", 1), fin(0, lo, hi), fin(1, lo, hi)])


def dconst(w, txt):
    txt = txt.strip()
    neg = txt.startswith("-")
    t = txt.lstrip("+-").strip()
    if t.lower() == "inf":
        return DV(w, [A("inf", int(neg))])
    if t.lower() in ("nan", "qnan"):
        return DV(w, [A("qnan", int(neg))])
    if t.lower() == "snan":
        return DV(w, [A("snan", int(neg))])
    d = D(t)
    tup = d.as_tuple()
    coef = int("".join(map(str, tup.digits)) or "0")
    if coef == 0:
        return DV(w, [A("zero", int(neg), None, None, None, (0, tup.exponent))])
    return DV(w, [fin(int(neg), d, d, None, (coef, tup.exponent))])


def dmerge(w, atoms):
    """combine atoms of one class and sign."""
    m = {}
    for a in atoms:
        k = (a.kind, a.sign)
        o = m.get(k)
        if o is None:
            m[k] = a
        elif a.kind == "fin":
            m[k] = Atom("fin", a.sign, min(a.lo, o.lo), max(a.hi, o.hi), a.par if a.par == o.par else None,
                        a.rep if a.rep == o.rep else None, a.enc if a.enc == o.enc else None)
        elif a.rep != o.rep:
            m[k] = a._replace(rep=None)
    return DV(w, m.values())


def rnd(x, w, mode):
    """round the non-negative exact value x (Decimal) to format w; mode acts on the signed value by the
    caller. Returns (value or 'inf', inexact, overflow, tiny)."""
    f = fmt(w)
    if x == 0:
        return D(0), False, False, False
    adj = x.adjusted()
    e = max(adj - f.p + 1, f.etiny)
    t = x.as_tuple()
    if t.exponent >= e:
        r = x
        inex = False
    else:
        if adj < e - 2:     # far below the smallest unit
            q = D((0, (1,), e - 2)) if x != 0 else x
            r = q.quantize(D((0, (1,), e)), rounding=mode, context=CTXN)
        else:
            r = x.quantize(D((0, (1,), e)), rounding=mode, context=CTXN)
        inex = r != x
    tiny = adj < -f.emax + 1
    if r and r.adjusted() > f.emax:
        if mode in (decimal.ROUND_DOWN, decimal.ROUND_FLOOR):
            return fmax(w), True, True, False
        return "inf", True, True, False
    return r, inex, False, tiny


def smode(mode, sign):
    """rounding of the magnitude, for a value of this sign"""
    if mode == decimal.ROUND_CEILING:
        return decimal.ROUND_DOWN if sign else decimal.ROUND_UP
    if mode == decimal.ROUND_FLOOR:
        return decimal.ROUND_UP if sign else decimal.ROUND_DOWN
    return mode


INEX, UNDER, OVER, DIVZ, INV = 32, 16, 8, 4, 1      # FE_* on x86_64
ALLFE = 61


class Fl:
    """flags possibly (may) and certainly (must) raised."""
    __slots__ = ("may", "must")

    def __init__(self, may=0, must=0):
        self.may, self.must = may | must, must


def dround(w, sign, lo, hi, modes, exactlohi=True):
    """atoms of the interval [lo,hi] (non-negative, exact bounds) rounded to format w under any of modes."""
    atoms = []
    may, must = 0, 0xff
    for mode in modes:
        m = smode(mode, sign)
        rl, il, ol, tl = rnd(lo, w, m)
        rh, ih, oh, th = rnd(hi, w, m)
        if rh == "inf":
            atoms.append(A("inf", sign))
        if rl == 0:
            atoms.append(A("zero", sign))
        if rl != "inf" and rh != 0:
            a = rl if rl != 0 else fmin(w)
            b = rh if rh != "inf" else fmax(w)
            atoms.append(fin(sign, a, b))
        if lo == hi:
            f = (INEX if il else 0) | (OVER if ol else 0) | (UNDER if (tl and il) else 0)
            may |= f
            must &= f
        else:
            f = INEX | (OVER if oh else 0) | (UNDER if tl else 0)
            may |= f
            must &= (OVER | INEX) if ol else 0
    return dmerge(w, atoms).atoms, may, must


def bounds(a):
    return (a.lo, a.hi)


def dsig(atoms):
    return any(a.kind == "snan" for a in atoms)


def _iadd(a, b, w=0):
    """exact signed sum interval of two finite/zero atoms -> (lo, hi)"""
    def si(x):
        if x.kind == "zero":
            return D(0), D(0)
        return (x.lo, x.hi) if not x.sign else (-x.hi, -x.lo)
    al, ah = si(a)
    bl, bh = si(b)
    if w:
        return CTX5.add(al, bl), CTX5.add(ah, bh)
    return CTXF.add(al, bl), CTXC.add(ah, bh)


def signed_round(w, lo, hi, modes, zsign):
    """round the signed interval; returns atoms, may, must. zsign: signs an exact zero may take"""
    atoms, may, must = [], 0, 0xff
    some = False
    if lo < 0:
        m = -hi if hi < 0 else fmin(w) * D("1e-10") if hi > 0 or hi == 0 else None
        l = -hi if hi < 0 else D((0, (1,), fmt(w).etiny))
        at, my, mu = dround(w, 1, l, -lo, modes)
        atoms += at
        may |= my
        must &= mu
        some = True
    if hi > 0:
        l = lo if lo > 0 else D((0, (1,), fmt(w).etiny))
        at, my, mu = dround(w, 0, l, hi, modes)
        atoms += at
        may |= my
        must &= mu
        some = True
    if lo <= 0 <= hi:
        for s in zsign:
            atoms.append(A("zero", s))
        must = 0
    return atoms, may, must & may


def dop(op, x, y, modes, w):
    """native decimal operation; returns DV, Fl"""
    out, may, must = [], 0, 0xff
    for a in x.atoms:
        for b in y.atoms:
            at, my, mu = _dop1(op, a, b, modes, w)
            out += at
            may |= my
            must &= mu
    if not out:
        return None, Fl()
    return dmerge(w, out), Fl(may, must & may if must != 0xff else 0)


def _dop1(op, a, b, modes, w):
    if op == "-":
        if b.kind in ("snan", "qnan"):
            pass
        else:
            b = b._replace(sign=1 - b.sign)
        op = "+"
    if a.kind == "snan" or b.kind == "snan":
        s = a.sign if a.kind == "snan" else b.sign
        return [A("qnan", 0), A("qnan", 1)], INV, INV
    if a.kind == "qnan" or b.kind == "qnan":
        return [A("qnan", a.sign if a.kind == "qnan" else b.sign)], 0, 0
    if op == "+":
        if a.kind == "inf" or b.kind == "inf":
            if a.kind == b.kind and a.sign != b.sign:
                return [A("qnan", 0), A("qnan", 1)], INV, INV
            return [A("inf", a.sign if a.kind == "inf" else b.sign)], 0, 0
        if a.kind == "zero" and b.kind == "zero":
            if a.sign == b.sign:
                return [A("zero", a.sign)], 0, 0
            return [A("zero", 1 if m == decimal.ROUND_FLOOR else 0) for m in modes], 0, 0
        if a.kind == "zero":
            return [b._replace(rep=None, enc=None)], 0, 0
        if b.kind == "zero":
            return [a._replace(rep=None, enc=None)], 0, 0
        lo, hi = _iadd(a, b, w if w in FMT else 0)
        if lo == hi == 0:
            return [A("zero", 1 if m == decimal.ROUND_FLOOR else 0) for m in modes], 0, 0
        zs = set(1 if m == decimal.ROUND_FLOOR else 0 for m in modes)
        return signed_round(w, lo, hi, modes, zs)
    s = a.sign ^ b.sign
    if op == "*":
        if a.kind == "inf" or b.kind == "inf":
            if a.kind == "zero" or b.kind == "zero":
                return [A("qnan", 0), A("qnan", 1)], INV, INV
            return [A("inf", s)], 0, 0
        if a.kind == "zero" or b.kind == "zero":
            return [A("zero", s)], 0, 0
        if w in FMT:
            return dround(w, s, CTX5.multiply(a.lo, b.lo), CTX5.multiply(a.hi, b.hi), modes)
        return dround(w, s, CTXF.multiply(a.lo, b.lo), CTXC.multiply(a.hi, b.hi), modes)
    if op == "/":
        if a.kind == "inf":
            if b.kind == "inf":
                return [A("qnan", 0), A("qnan", 1)], INV, INV
            return [A("inf", s)], 0, 0
        if b.kind == "inf":
            return [A("zero", s)], 0, 0
        if b.kind == "zero":
            if a.kind == "zero":
                return [A("qnan", 0), A("qnan", 1)], INV, INV
            return [A("inf", s)], DIVZ, DIVZ
        if a.kind == "zero":
            return [A("zero", s)], 0, 0
        if w in FMT:
            return dround(w, s, CTX5.divide(a.lo, b.hi), CTX5.divide(a.hi, b.lo), modes)
        return dround(w, s, CTXF.divide(a.lo, b.hi), CTXC.divide(a.hi, b.lo), modes)
    return dtop(w).atoms, ALLFE, 0


def dconv(x, w, modes):
    """conversion between decimal formats."""
    out, may, must = [], 0, 0xff
    for a in x.atoms:
        if a.kind == "snan":
            out.append(A("qnan", a.sign)); my = mu = INV
        elif a.kind in ("qnan", "inf"):
            out.append(a); my = mu = 0
        elif a.kind == "zero":
            out.append(A("zero", a.sign)); my = mu = 0
        else:
            if w > (x.w or 9999):
                at, my, mu = [a], 0, 0
            else:
                at, my, mu = dround(w, a.sign, a.lo, a.hi, modes)
                if a.par and a.lo >= fmin(w) and len(at) == 1 and a.hi < D(10) ** FMT[w].p and a.par != "nonint":
                    at = [at[0]._replace(par=a.par)]
            out += at
        may |= my
        must &= mu
    return dmerge(w, out), Fl(may, must & may)


def toint_trunc(a):
    """truncated signed integer interval of a finite/zero atom (exact), or None"""
    if a.kind == "zero":
        return 0, 0
    if a.kind != "fin":
        return None
    if a.hi.adjusted() > 60:
        lo = int(a.lo) if a.lo.adjusted() <= 60 else 10 ** 60
        hi = 10 ** 60
    else:
        lo, hi = int(a.lo), int(a.hi)
    return (-hi, -lo) if a.sign else (lo, hi)


def fromint(lo, hi, w, modes):
    atoms, may, must = signed_round(w, D(lo), D(hi), modes, (0,))
    dv = dmerge(w, atoms)
    if lo >= -10 ** FMT[w].p and hi <= 10 ** FMT[w].p:
        top = 10 ** FMT[w].p
        out = []
        for a in dv.atoms:
            if a.kind == "fin":
                if a.par not in ("odd", "even"):
                    a = a._replace(par="int")
                if a.hi < top:
                    l, h = int(a.lo), int(a.hi)
                    a = a._replace(rep=(l, 0)) if l == h else a._replace(enc=(l, h, 0))
            out.append(a)
        return DV(w, out), Fl(0, 0)
    return dv, Fl(may, must)


# order comparison of two atoms: set of outcomes among lt eq gt un
def dcmp1(a, b):
    if "nan" in a.kind or "nan" in b.kind:
        return {"un"}

    def si(x):
        if x.kind == "zero":
            return D(0), D(0)
        if x.kind == "inf":
            v = D("Infinity") if not x.sign else D("-Infinity")
            return v, v
        return (x.lo, x.hi) if not x.sign else (-x.hi, -x.lo)
    al, ah = si(a)
    bl, bh = si(b)
    r = set()
    if al < bh:
        r.add("lt")
    if ah > bl:
        r.add("gt")
    if al <= bh and bl <= ah:
        if al == ah and bl == bh:
            r.add("eq")
        elif a.kind == b.kind and not (a.par and b.par and (
                (a.par == "nonint") != (b.par == "nonint") or {a.par, b.par} == {"odd", "even"})):
            r.add("eq")
    return r


DCM = {"<": {"lt"}, ">": {"gt"}, "<=": {"lt", "eq"}, ">=": {"gt", "eq"}, "==": {"eq"}, "!=": {"lt", "gt", "un"},
       "unlt": {"un", "lt"}, "ungt": {"un", "gt"}, "unle": {"un", "lt", "eq"}, "unge": {"un", "gt", "eq"},
       "uneq": {"un", "eq"}, "ltgt": {"lt", "gt"}, "unord": {"un"}, "ord": {"lt", "gt", "eq"}}


def dcmp(op, x, y):
    want = DCM[op]
    t = f = False
    for a in x.atoms:
        for b in y.atoms:
            r = dcmp1(a, b)
            if r & want:
                t = True
            if r - want:
                f = True
    if t and f:
        return None
    return t


def nextdown(x, w):
    """largest representable magnitude below x (x > 0 in format)"""
    f = FMT[w]
    e = max(x.adjusted() - f.p + 1, f.etiny)
    r = x - D((0, (1,), e))
    if r > 0 and r.adjusted() < x.adjusted():
        e = max(e - 1, f.etiny)
        r = x - D((0, (1,), e))
    return r


def nextup(x, w):
    f = FMT[w]
    e = max(x.adjusted() - f.p + 1, f.etiny)
    return x + D((0, (1,), e))


def drefine(op, x, y, truth):
    """x restricted to the atoms for which (x op y) can be `truth`; intervals are cut against y when y is
    a single value."""
    want = DCM[op] if truth else {"lt", "eq", "gt", "un"} - DCM[op]
    out = []
    for a in x.atoms:
        got = set()
        for b in y.atoms:
            got |= dcmp1(a, b)
        k = got & want
        if not k:
            continue
        if a.kind == "fin" and len(y.atoms) == 1 and y.atoms[0].kind == "fin" and y.atoms[0].sign == a.sign \
                and y.atoms[0].lo == y.atoms[0].hi and a.lo < a.hi:
            c = y.atoms[0].lo
            lt, gt = ("lt", "gt") if not a.sign else ("gt", "lt")     # of magnitudes
            parts = []
            if lt in k and a.lo < c:
                hi = min(a.hi, nextdown(c, x.w) if x.w else c)
                if a.lo <= hi:
                    parts.append((a.lo, hi))
            if "eq" in k and a.lo <= c <= a.hi:
                parts.append((c, c))
            if gt in k and a.hi > c:
                lo = max(a.lo, nextup(c, x.w) if x.w else c)
                if lo <= a.hi:
                    parts.append((lo, a.hi))
            if not parts:
                continue
            lo, hi = min(p[0] for p in parts), max(p[1] for p in parts)
            if lo != a.lo or hi != a.hi:
                a = a._replace(lo=lo, hi=hi, rep=None, par=parity(lo) if lo == hi else a.par)
        out.append(a)
    if not out:
        return None
    return DV(x.w, out)


def sgnop(dv, how):
    if how == "neg":
        return DV(dv.w, [a._replace(sign=1 - a.sign) for a in dv.atoms])
    if how == "abs":
        return dmerge(dv.w, [a._replace(sign=0) for a in dv.atoms])
    if how == "set":
        return dmerge(dv.w, [a._replace(sign=1) for a in dv.atoms])
    return dv


def exact_coef(a):
    """a is exactly the values c1*10^e .. c2*10^e stored with exponent e"""
    return a.kind == "fin" and isinstance(a.enc, tuple) and (D(a.enc[0]).scaleb(a.enc[2], CTXN), D(a.enc[1]).scaleb(a.enc[2], CTXN)) == (a.lo, a.hi)


# ---- BID encodings -----------------------------------------------------
def bid_bits(a, w):
    """disjunction of known-bit patterns of one atom's encoding (w bits)."""
    f = FMT[w]
    s = a.sign << (w - 1)
    full = (1 << w) - 1
    top = w - 1
    sm = 1 << top
    if a.kind == "inf":
        # canonical infinity: steering 11110, rest don't care -> leave unknown
        return [(sm | (0x1f << (w - 6)), s | (0x1e << (w - 6)))]
    if a.kind in ("qnan", "snan"):
        b = 0x3f if a.kind == "snan" else 0x3e
        return [(sm | (0x3f << (w - 7)), s | (b << (w - 7)))]
    eb = {32: 8, 64: 10, 128: 14}[w]
    bias = -f.etiny
    if a.rep is not None:
        c, e = a.rep
        be = e + bias
        if 0 <= be < 3 << (eb - 2):
            if c < 1 << (w - 1 - eb):
                return [(full, s | (be << (w - 1 - eb)) | c)]
            hi = w - 3 - eb
            return [(full, s | (3 << (w - 3)) | (be << hi) | (c & ((1 << hi) - 1)))]
    if a.kind == "zero":
        m = sm | ((1 << (w - 1 - eb)) - 1) | (3 << (w - 3))
        return [(m, s | (k << (w - 3))) for k in (0, 1, 2)]
    if isinstance(a.enc, tuple):
        c1, c2, e = a.enc
        be, cb = e + bias, w - 1 - eb
        n = (c1 ^ c2).bit_length()
        if w != 128 and c1 >> cb:
            hb = cb - 2
            cm = ((1 << hb) - 1) & ~((1 << n) - 1)
            return [(sm | (3 << (w - 3)) | (((1 << eb) - 1) << hb) | cm, s | (3 << (w - 3)) | (be << hb) | (c1 & cm))]
        cm = ((1 << cb) - 1) & ~((1 << n) - 1)
        return [(sm | (((1 << eb) - 1) << cb) | cm, s | (be << cb) | (c1 & cm))]
    if a.enc in (0, 2):
        cm = (1 << 49) - 1 << 64
        hv = 0 if a.enc == 0 else (10 ** 34 >> 64) << 64
        return [(sm | (3 << (w - 3)) | cm, s | (k << (w - 3)) | hv) for k in (0, 1, 2)]
    out = [(sm | (3 << (w - 3)), s | (k << (w - 3))) for k in (0, 1, 2)]
    if a.enc == "l":
        out = []
    if w != 128 and a.enc != "s":
        out += [(sm | (15 << (w - 5)), s | ((12 | k) << (w - 5))) for k in (0, 1, 2)]
    return out


def bid_encode(sign, c, e, w):
    f = FMT[w]
    eb = {32: 8, 64: 10, 128: 14}[w]
    cb = w - 1 - eb
    be = e - f.etiny
    if c >> cb:
        hb = cb - 2
        return (sign << (w - 1)) | (3 << (w - 3)) | (be << hb) | (c & ((1 << hb) - 1))
    return (sign << (w - 1)) | (be << cb) | c


def bid_mask(a, w, sh, mask, rw):
    """range of (bits sh..sh+rw-1 of a finite canonical atom's encoding) & mask, or None when nothing better is known"""
    if a.kind != "fin" or a.rep is not None or rw != min(w, 64):
        return None
    eb = {32: 8, 64: 10, 128: 14}[w]
    if isinstance(a.enc, tuple) and mask == (1 << rw) - 1:
        c1, c2, e = a.enc
        lo, hi = bid_encode(a.sign, c1, e, w) >> sh, bid_encode(a.sign, c2, e, w) >> sh
        if lo >> rw == hi >> rw:
            return lo & mask, hi & mask
        return None
    if w == 128:
        top, low = divmod(10 ** 34 - 1, 1 << 64)
        if isinstance(a.enc, tuple):
            c1, c2, _ = a.enc
            if sh == 64 and mask == (1 << 49) - 1:
                return c1 >> 64, c2 >> 64
            if sh == 0 and mask == (1 << 64) - 1 and c1 >> 64 == c2 >> 64:
                return c1 & mask, c2 & mask
            return None
        if sh == 64 and mask == (1 << 49) - 1:
            return {0: (0, 0), 1: (1, top - 1), 2: (top, top)}.get(a.enc, (0, top))
        if sh == 0 and mask == (1 << 64) - 1 and a.enc in (0, 2):
            return (1, mask) if a.enc == 0 else (0, low)
        return None
    cb = w - 1 - eb
    if isinstance(a.enc, tuple):
        c1, c2, _ = a.enc
        if not c1 >> cb and mask == (1 << cb) - 1:
            return c1, c2
        if c1 >> cb and mask == (1 << cb - 2) - 1:
            return c1 - (1 << cb), c2 - (1 << cb)
        return None
    if mask == (1 << cb) - 1 and a.enc == "s":
        return 1, mask
    if mask == (1 << cb - 2) - 1 and a.enc == "l":
        return 0, 10 ** FMT[w].p - 1 - (1 << cb)
    return None


def bid_class(dj, w, lo=None, hi=None):
    """decimal atoms possible for known-bit patterns of an encoding (within lo..hi, unsigned)."""
    f = FMT[w]
    out = []
    eb = {32: 8, 64: 10, 128: 14}[w]
    cb = w - 1 - eb
    full = (1 << w) - 1
    for m, v in dj:
        signs = [v >> (w - 1)] if m >> (w - 1) & 1 else [0, 1]
        sm, sv = (m >> (w - 7)) & 0x3f, (v >> (w - 7)) & 0x3f
        poss = [p for p in range(64) if (p & sm) == sv]
        kinds = set()
        for p in poss:
            if p >> 1 == 0x1f:
                kinds.add("snan" if p & 1 else "qnan")
            elif p >> 1 == 0x1e:
                kinds.add("inf")
            elif p >> 4 == 3:
                kinds.add("B")
            else:
                kinds.add("A")
        for s in signs:
            for k in kinds:
                if k in ("snan", "qnan", "inf"):
                    out.append(A(k, s))
                    continue
                if k == "A":
                    cm = (1 << cb) - 1
                    c0, c1 = v & cm, (v & cm) | (cm & ~m)
                    e0 = (v >> cb) & ((1 << eb) - 1)
                    em = (m >> cb) & ((1 << eb) - 1)
                    e1 = e0 | (~em & ((1 << eb) - 1))
                else:
                    hb = cb - 2
                    cm = (1 << hb) - 1
                    c0 = (v & cm) | (4 << hb)
                    c1 = c0 | (cm & ~m)
                    e0 = (v >> hb) & ((1 << eb) - 1)
                    em = (m >> hb) & ((1 << eb) - 1)
                    e1 = e0 | (~em & ((1 << eb) - 1))
                    if w == 128 or c0 >= 10 ** f.p:
                        out.append(A("zero", s))
                        continue
                enc = None
                fb = cb if k == "A" else cb - 2
                if lo is not None and len(dj) == 1 and lo >> fb == hi >> fb and e0 == e1:
                    base = (4 << fb) if k == "B" else 0
                    c0, c1 = max(c0, (lo & cm) | base), min(c1, (hi & cm) | base)
                    if 0 < c0 < c1 < 10 ** f.p:
                        enc = (c0, c1, e0 + f.etiny)
                cmax = 10 ** f.p - 1
                emax = (3 << (eb - 2)) - 1
                e1 = min(e1, emax)
                if c0 == 0 or c1 > cmax:
                    out.append(A("zero", s, None, None, None, (0, e0 - (-f.etiny)) if c0 == c1 == 0 and e0 == e1 else None))
                if c1 > 0 and c0 <= cmax:
                    c0_, c1_ = max(c0, 1), min(c1, cmax)
                    l = D(c0_).scaleb(e0 + f.etiny, CTXN)
                    h = D(c1_).scaleb(e1 + f.etiny, CTXN)
                    rep = (c0_, e0 + f.etiny) if c0 == c1 and e0 == e1 else None
                    out.append(fin(s, l, h, None, rep)._replace(enc=enc))
    return dmerge(w, out)


# ---------------------------------------------------------------- others
class PV:
    """pointer to (object, offset IV-or-int). obj None: unknown."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)

    def key(self):
        return ("P", self.obj, self.off if isinstance(self.off, int) else self.off.key())


class FnV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class FV:
    __slots__ = ("w", "lo", "hi")

    def __init__(self, w, lo=None, hi=None):
        self.w, self.lo, self.hi = w, lo, hi

    def __repr__(self):
        return "F%d[%s,%s]" % (self.w, self.lo, self.hi)


class Top:
    """unknown value of some type"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Top"


class Uninit:
    __slots__ = ()

    def __repr__(self):
        return "Uninit"


UNINIT = Uninit()
