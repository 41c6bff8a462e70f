"""Contracts of the functions the interpreter does not look into.

decNumber's arithmetic is used through its specification (General Decimal
Arithmetic): result class / sign / magnitude bounds, and the status bits of the
context.  Everything else here is libc.
"""
import decimal
from decimal import Decimal as D
from .domain import *
from .domain import _dop1
from .domain import Fmt

S_SYNTAX, S_DIVZ, S_DIVIMP, S_DIVUND, S_INEX, S_INV = 1, 2, 4, 8, 0x20, 0x80
S_OVER, S_CLAMP, S_ROUND, S_SUB, S_UNDER = 0x200, 0x400, 0x800, 0x1000, 0x2000

DEC_ROUND = {0: decimal.ROUND_CEILING, 1: decimal.ROUND_UP, 2: decimal.ROUND_HALF_UP, 3: decimal.ROUND_HALF_EVEN,
             4: decimal.ROUND_HALF_DOWN, 5: decimal.ROUND_DOWN, 6: decimal.ROUND_FLOOR, 7: decimal.ROUND_05UP}

BIG = Fmt(0, 999999999, 999999999, -1999999997)


def single(v):
    return v.lo if isinstance(v, IV) and v.single else None


class Ctx:
    def __init__(self, I, st, pvid):
        self.I, self.st = I, st
        p = st.val[pvid]
        self.p = p if isinstance(p, PV) and p.obj is not None and isinstance(p.off, int) else None
        self.vid = pvid
        self.digits = self.get(0)
        self.emax = self.get(4)
        self.emin = self.get(8)
        r = self.get(12)
        self.known = None not in (self.digits, self.emax, self.emin)
        self.modes = [DEC_ROUND[r]] if r in DEC_ROUND else list(DEC_ROUND.values())[:7]
        self.round = r
        if self.known:
            self.fmt = Fmt(0, self.digits, self.emax, self.emin - self.digits + 1)
        else:
            self.fmt = BIG

    def get(self, off):
        if self.p is None:
            return None
        v = self.I.read(self.st, self.p.obj, self.p.off + off, 4, ("int", 32, True))
        return single(self.st.val[v])

    def set(self, off, val):
        if self.p is not None:
            self.I.write(self.st, self.p.obj, self.p.off + off, 4, self.I.new(self.st, ic(32, True, val)))

    def status(self, st, may, must):
        if self.p is None or not (may | must):
            return
        I = self.I
        tu, I.track_uninit = I.track_uninit, False
        v = st.val[I.read(st, self.p.obj, self.p.off + 20, 4, ("int", 32, False))]
        I.track_uninit = tu
        dj = []
        unk = may & ~must
        old = v.dj if isinstance(v, IV) else ((0, 0),)
        for m, x in old:
            m |= must
            x |= must
            m &= ~(unk & ~x)
            x &= m
            dj.append((m, x))
        n = iv(32, False, None, None, tuple(set(dj)))
        I.write(st, self.p.obj, self.p.off + 20, 4, I.new(st, n, 0 if n.single else 1))


def fe2st(f):
    r = 0
    if f & INEX:
        r |= S_INEX | S_ROUND
    if f & OVER:
        r |= S_OVER
    if f & UNDER:
        r |= S_UNDER | S_SUB
    if f & DIVZ:
        r |= S_DIVZ
    if f & INV:
        r |= S_INV
    return r


INFO = S_ROUND | S_CLAMP | S_SUB


def finish(I, st, dst, ctx, groups, q, vids=()):
    """groups: list of (atoms, may, must) in FE terms, one per overflow class. -> None or fork list"""
    groups = [g for g in groups if g[0]]
    if not groups:
        from .interp import Dead
        raise Dead()
    res = []
    q, src = I.depq(st, q, *vids)
    for i, (atoms, may, must) in enumerate(groups):
        s = st if len(groups) == 1 else st.copy()
        if len(groups) > 1:
            s.level = max(s.level, max(q, 1))
        dv = dmerge(0, atoms)
        vid = I.computed(s, I.new(s, dv, q if dv.single else max(q, 1)), src)
        if len(groups) > 1:
            for x in src:
                s.last[x] = vid
                s.ver[x] = s.ver.get(x, 0) + 1
        I.dn_put(s, dst, vid)
        if ctx is not None:
            ctx.status(s, fe2st(may) | (INFO if any(a.kind == "fin" for a in atoms) else 0), fe2st(must))
        res.append((s, dst))
    if len(groups) == 1:
        return dst
    return res


def group(per_atom):
    """[(atoms, may, must)] -> merged overflow / no-overflow groups"""
    ov, no = [], []
    for atoms, may, must in per_atom:
        if may & OVER:
            io = [a for a in atoms if a.kind == "inf"]
            rest = [a for a in atoms if a.kind != "inf"]
            if io:
                ov.append((io, may | must | OVER | INEX, OVER | INEX))
            if rest:
                if must & OVER:
                    ov.append((rest, may, must))
                else:
                    no.append((rest, may & ~OVER, must & ~OVER))
        else:
            no.append((atoms, may, must))
    out = []
    for g in (no, ov):
        if not g:
            continue
        at, my, mu = [], 0, 0xff
        for a, x, y in g:
            at += a
            my |= x
            mu &= y
        out.append((at, my, mu & my))
    return out


def exact_enc(a, fmt):
    """every value of a fits the format with the coefficient and exponent it has"""
    c1, c2, e = a.enc
    return c2 < 10 ** fmt.p and fmt.etiny <= e <= fmt.emax - fmt.p + 1 and D(c1).scaleb(e, CTXN) <= a.lo and a.hi <= D(c2).scaleb(e, CTXN)


def rounded(atoms, fmt, modes):
    """apply context rounding to atoms (NaN/Inf untouched)"""
    out = []
    for a in atoms:
        if a.kind == "fin" and isinstance(a.enc, tuple) and exact_enc(a, fmt):
            out.append(([a], 0, 0))
        elif a.kind == "fin":
            at, my, mu = dround(fmt, a.sign, a.lo, a.hi, modes)
            if len(at) == 1 and at[0].kind == "fin" and a.lo == at[0].lo and a.hi == at[0].hi:
                at = [at[0]._replace(par=a.par, rep=a.rep)]
            elif len(at) == 1 and at[0].kind == "fin" and a.par and a.par != "nonint" and a.hi < D(10) ** fmt.p:
                at = [at[0]._replace(par=a.par)]
            out.append((at, my, mu))
        else:
            out.append(([a], 0, 0))
    return out


def repop(op, p, r, z, digits):
    """z with the coefficient and exponent decNumber gives an exact sum, difference or product"""
    (c1, e1), (c2, e2) = p.rep, r.rep
    if op == "*":
        c, e = c1 * c2, e1 + e2
    else:
        if abs(e1 - e2) > 200:
            return z
        e = min(e1, e2)
        c1, c2 = c1 * 10 ** (e1 - e), c2 * 10 ** (e2 - e)
        c = abs((-c1 if p.sign else c1) + (-c2 if (r.sign ^ (op == "-")) else c2))
    while len(str(c)) > digits:
        if c % 10:
            return z
        c //= 10
        e += 1
    if D((0, tuple(map(int, str(c))), e)) != z.lo:
        return z
    return z._replace(rep=(c, e))


def ops(op):
    def m(I, st, fr, args, e, lhs):
        dst, pa, pb, pc = args[:4]
        a, b = I.dn_get(st, pa), I.dn_get(st, pb)
        ctx = Ctx(I, st, pc)
        x, y = st.val[a], st.val[b]
        q = max(st.q.get(a, 0), st.q.get(b, 0))
        per = []
        for p in x.atoms:
            for r in ([p] if a == b else y.atoms):
                if op == "-" and a == b and p.kind == "fin":
                    per.append(([A("zero", 0)], 0, 0))
                    continue
                if op in "+-" and (p.kind == "zero") != (r.kind == "zero") and "fin" in (p.kind, r.kind):
                    z = p if p.kind == "fin" else r if op == "+" else r._replace(sign=1 - r.sign)
                    per += rounded([z], ctx.fmt, ctx.modes)
                    continue
                at, my, mu = _dop1(op, p, r, ctx.modes, ctx.fmt)
                if op != "/" and ctx.known and p.rep is not None and r.rep is not None and p.kind == r.kind == "fin" and len(at) == 1 and at[0].kind == "fin" \
                        and at[0].lo == at[0].hi:
                    at = [repop(op, p, r, at[0], ctx.digits)]
                if op == "/" and p.kind == "zero" and r.kind == "zero":
                    my = mu = INV
                per.append((at, my, mu))
        return finish(I, st, dst, ctx, group(per), q, (a, b))
    return m


def unary(f, keepdef=None):
    """f(atom, ctx) -> list of (atoms, may, must)"""
    def m(I, st, fr, args, e, lhs):
        dst, pa, pc = args[:3]
        a = I.dn_get(st, pa)
        ctx = Ctx(I, st, pc)
        if f is u_toint and all(p.kind not in ("qnan", "snan") and toint_bounds(p, ctx.modes) == [p] for p in st.val[a].atoms):
            I.dn_put(st, dst, I.new(st, DV(0, st.val[a].atoms), st.q.get(a, 0), ("dncopy", a)))
            return dst
        per = []
        for p in st.val[a].atoms:
            if p.kind == "snan":
                per.append(([A("qnan", p.sign)], INV, INV))
            elif p.kind == "qnan":
                per.append(([p], 0, 0))
            else:
                per += f(p, ctx)
        return finish(I, st, dst, ctx, group(per), st.q.get(a, 0), (a,))
    return m


def u_abs(p, c):
    return rounded([p._replace(sign=0)], c.fmt, c.modes)


def u_minus(p, c):
    if p.kind == "zero":
        return [([p._replace(sign=0)], 0, 0)]
    return rounded([p._replace(sign=1 - p.sign)], c.fmt, c.modes)


def u_plus(p, c):
    if p.kind == "zero":
        return [([p._replace(sign=0)], 0, 0)]
    return rounded([p], c.fmt, c.modes)


def integral(mode_sign):
    pass


def toint_bounds(p, modes):
    """atoms of p rounded to an integral value"""
    out = []
    if p.kind != "fin":
        return [p]
    if p.par in ("odd", "even", "int"):
        return [p]
    enc = exact_coef(p)
    if enc and p.enc[2] >= 0 or p.rep is not None and p.rep[1] >= 0:
        return [p]
    for mode in modes:
        m = smode(mode, p.sign)

        def r(x):
            if x.adjusted() > 80:
                return x
            if x.adjusted() < -3:
                x = D("0.001")
            return x.to_integral_value(rounding=m)
        lo, hi = r(p.lo), r(p.hi)
        if lo == 0:
            out.append(A("zero", p.sign, None, None, None, (0, 0)))
        if hi > 0:
            par = None
            l = lo if lo > 0 else D(1)
            par = parity(l) if l == hi else ("even" if p.lo.adjusted() > 60 else "int")
            a = fin(p.sign, l, hi, par)
            if l == hi and (p.rep is not None or enc):
                a = a._replace(rep=(int(l), 0))
            elif enc and l < hi:
                a = a._replace(enc=(int(l), int(hi), 0))
            out.append(a)
    return list(dmerge(0, out).atoms)


def u_toint(p, c):
    return [(toint_bounds(p, c.modes), 0, 0)]


def u_sqrt(p, c):
    if p.kind == "zero":
        return [([p._replace(rep=None, enc=None)], 0, 0)]
    if p.sign:
        return [([A("qnan", 0)], INV, INV)]
    if p.kind == "inf":
        return [([p], 0, 0)]
    at, my, mu = dround(c.fmt, 0, CTXF.sqrt(p.lo), CTXC.sqrt(p.hi), [decimal.ROUND_HALF_EVEN])
    return [(at, my, mu & ~INEX)]


PREC = decimal.Context(prec=45, Emin=-10 ** 9, Emax=10 ** 9, traps=[])
CAPX = D(30000)


def _exp(x, up):
    if x > CAPX:
        return HUGE if up else D("1e13000")
    if x < -CAPX:
        return D("1e-13000") if up else TINY
    r = PREC.exp(x)
    e = D((0, (1,), r.adjusted() - 40))
    return r + e if up else r - e


def u_exp(p, c):
    if p.kind == "inf":
        return [([A("zero", 0)] if p.sign else [p], 0, 0)]
    if p.kind == "zero":
        return [([fin(0, 1)], 0, 0)]
    lo, hi = (p.lo, p.hi) if not p.sign else (-p.hi, -p.lo)
    at, my, mu = dround(c.fmt, 0, _exp(lo, 0), _exp(hi, 1), [decimal.ROUND_HALF_EVEN])
    return [(at, my, mu)]


def _ln(x, up, base10=False):
    if abs(x.adjusted()) > 10 ** 8:
        v = D(x.adjusted()) * (1 if base10 else D("2.302585092994045684"))
        return v + (3 if up else -3)
    r = PREC.log10(x) if base10 else PREC.ln(x)
    if r == 0:
        return r
    return r + abs(r) * D("1e-40") * (1 if up else -1)


def mkln(b10):
    def f(p, c):
        if p.kind == "zero":
            return [([A("inf", 1)], 0, 0)]
        if p.sign:
            return [([A("qnan", 0)], INV, INV)]
        if p.kind == "inf":
            return [([p], 0, 0)]
        lo, hi = _ln(p.lo, 0, b10), _ln(p.hi, 1, b10)
        at, my, mu = signed_round(c.fmt, lo, hi, [decimal.ROUND_HALF_EVEN], (0,))
        return [(at, my, mu & ~INEX)]
    return f


def m_compare(I, st, fr, args, e, lhs):
    dst, pa, pb, pc = args[:4]
    a, b = I.dn_get(st, pa), I.dn_get(st, pb)
    ctx = Ctx(I, st, pc)
    x, y = st.val[a], st.val[b]
    q = max(st.q.get(a, 0), st.q.get(b, 0))
    if not (len(x.atoms) == 1 and len(y.atoms) == 1 and len(dcmp1(x.atoms[0], y.atoms[0])) == 1):
        q = I.forklevel(st, a, b)
    rel = {"lt": fin(1, D(1), D(1), None, (1, 0)), "gt": fin(0, D(1), D(1), None, (1, 0)), "eq": A("zero", 0)}
    found = {}
    for p in x.atoms:
        for r in ([p] if a == b else y.atoms):
            if p.kind == "snan" or r.kind == "snan":
                found.setdefault("nan", [0, 0xff])
                found["nan"][0] |= INV
                found["nan"][1] &= INV
                continue
            if "nan" in p.kind or "nan" in r.kind:
                found.setdefault("nan", [0, 0xff])
                found["nan"][1] = 0
                continue
            o = {"eq"} if a == b else dcmp1(p, r)
            for k in o:
                found.setdefault(k, [0, 0])
    out = []
    for k, (my, mu) in found.items():
        s = st if len(found) == 1 else st.copy()
        if len(found) > 1:
            s.level = max(s.level, q)
            if k in rel:
                op = {"lt": "<", "gt": ">", "eq": "=="}[k]
                if not I.refine(s, a, op, b, True):
                    continue
            else:
                if not I.refine(s, a, "unord", b, True):
                    continue
            s.trace = s.trace + (("compare", k, s.frames[-1].loc),)
        at = rel[k] if k in rel else A("qnan", 0)
        I.dn_put(s, dst, I.new(s, DV(0, [at])))
        ctx.status(s, fe2st(my), fe2st(mu & my))
        out.append((s, dst))
    if len(found) == 1:
        return dst
    if not out:
        from .interp import Dead
        raise Dead()
    return out


def m_maxmin(mx, mag=False):
    def m(I, st, fr, args, e, lhs):
        dst, pa, pb, pc = args[:4]
        a, b = I.dn_get(st, pa), I.dn_get(st, pb)
        ctx = Ctx(I, st, pc)
        x, y = st.val[a], st.val[b]
        q = max(st.q.get(a, 0), st.q.get(b, 0))
        per = []
        for p in x.atoms:
            for r in ([p] if a == b else y.atoms):
                if "snan" in (p.kind, r.kind):
                    per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                elif p.kind == "qnan" and r.kind == "qnan":
                    per.append(([p], 0, 0))
                elif p.kind == "qnan":
                    per += rounded([r], ctx.fmt, ctx.modes)
                elif r.kind == "qnan":
                    per += rounded([p], ctx.fmt, ctx.modes)
                else:
                    o = dcmp1(p, r)
                    c = []
                    if "gt" in o:
                        c.append(p if mx else r)
                    if "lt" in o:
                        c.append(r if mx else p)
                    if "eq" in o:
                        if p.sign != r.sign:
                            c.append(p if (p.sign == 0) == mx else r)
                        else:
                            c += [p]
                    cc = []
                    for z in c:
                        if z.kind == "fin" and z not in cc:
                            pass
                        cc.append(z)
                    per += rounded(cc, ctx.fmt, ctx.modes)
        return finish(I, st, dst, ctx, group(per), q, (a, b))
    return m


def m_power(I, st, fr, args, e, lhs):
    dst, pa, pb, pc = args[:4]
    a, b = I.dn_get(st, pa), I.dn_get(st, pb)
    ctx = Ctx(I, st, pc)
    q = max(st.q.get(a, 0), st.q.get(b, 0))
    per = []
    allf = [fin(0, fmin(ctx.fmt) if ctx.known else TINY, fmax(ctx.fmt) if ctx.known else HUGE)]
    lossy = False
    for p in st.val[a].atoms:
        for r in st.val[b].atoms:
            if "snan" in (p.kind, r.kind):
                per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                continue
            if "qnan" in (p.kind, r.kind):
                per.append(([p if p.kind == "qnan" else r], 0, 0))
                continue
            if r.kind == "zero":
                if p.kind == "zero":
                    per.append(([A("qnan", 0)], INV, INV))
                else:
                    per.append(([fin(0, 1)], 0, 0))
                continue
            if r.kind == "fin" and r.par in (None, "int") and r.lo == r.hi:
                r = r._replace(par=parity(r.lo))
            rint = r.kind == "fin" and r.par in ("int", "odd", "even")
            maybeint = r.kind == "fin" and r.par != "nonint"
            if r.kind == "inf":
                if p.sign and p.kind != "zero":
                    per.append(([A("qnan", 0)], INV, INV))
                    continue
                if p.kind == "zero":
                    per.append(([A("inf", 0) if r.sign else A("zero", 0)], 0, 0))
                    continue
                if p.kind == "inf":
                    per.append(([A("zero", 0) if r.sign else A("inf", 0)], 0, 0))
                    continue
                out = []
                if p.lo < 1:
                    out.append(A("inf", 0) if r.sign else A("zero", 0))
                if p.hi > 1:
                    out.append(A("zero", 0) if r.sign else A("inf", 0))
                if p.lo <= 1 <= p.hi:
                    out.append(fin(0, 1))
                per.append((out, INEX, 0))
                continue
            signs = [0]
            if p.sign:
                if r.par == "odd":
                    signs = [1]
                elif r.par == "even":
                    signs = [0]
                elif maybeint:
                    signs = [0, 1]
                if not rint and p.kind != "zero" and r.par == "nonint":
                    per.append(([A("qnan", 0)], INV, INV))
                    continue
                if not rint and p.kind == "fin":
                    per.append(([A("qnan", 0)], INV, INV))
            for s in signs:
                if p.kind == "zero":
                    per.append(([A("inf", s) if r.sign else A("zero", s)], 0, 0))
                elif p.kind == "inf":
                    per.append(([A("zero", s) if r.sign else A("inf", s)], 0, 0))
                else:
                    lo, hi = _powb(p, r)
                    at, my, mu = dround(ctx.fmt, s, lo, hi, ctx.modes)
                    per.append((at, my, mu & ~INEX))
    return finish(I, st, dst, ctx, group(per), q, (a, b))


def _powb(p, r):
    """bounds of |p|^r"""
    c = []
    for x in (p.lo, p.hi):
        l = [_ln(x, 0), _ln(x, 1)]
        for y in (r.lo, r.hi):
            y = -y if r.sign else y
            c += [z * y for z in l]
    lo, hi = min(c), max(c)
    if lo == hi == 0:
        return D(1), D(1)
    return _exp(lo, 0), _exp(hi, 1)


def quantized(p, er, ctx):
    """finite p rounded to a multiple of 10^er: a coefficient of more digits than the context holds is an invalid operation"""
    unit = D((0, (1,), er))
    top = D(10) ** ctx.digits * unit
    atoms, may, must = [], 0, 0xff
    for mode in ctx.modes:
        m = smode(mode, p.sign)
        lo, hi = [x if x.adjusted() > er + ctx.digits + 1 else QCTX.quantize(x if x.adjusted() >= er - 2 else unit / 100, unit)
                  for QCTX in [decimal.Context(prec=20000, rounding=m, traps=[], Emin=-10 ** 9, Emax=10 ** 9)] for x in (p.lo, p.hi)]
        if hi >= top:
            atoms.append(A("qnan", 0))
            may |= INV
        if lo >= top:
            must &= INV
            continue
        hi = min(hi, top - unit)
        if lo == 0:
            atoms.append(A("zero", p.sign, rep=(0, er)))
        if hi:
            l = max(lo, unit)
            atoms.append(fin(p.sign, l, hi, None, (int(l / unit), er) if l == hi else None))
        if (p.lo == p.hi) and lo == p.lo or p.rep and p.rep[1] >= er:
            must = 0
        elif (p.lo == p.hi):
            may |= INEX
            must &= INEX
        else:
            may |= INEX
            must = 0
    return [(atoms, may, must & may)]


def m_quantize(I, st, fr, args, e, lhs):
    dst, pa, pb, pc = args[:4]
    a, b = I.dn_get(st, pa), I.dn_get(st, pb)
    ctx = Ctx(I, st, pc)
    per = []
    for p in st.val[a].atoms:
        for r in st.val[b].atoms:
            if "snan" in (p.kind, r.kind):
                per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
            elif "qnan" in (p.kind, r.kind):
                per.append(([p if p.kind == "qnan" else r], 0, 0))
            elif (p.kind == "inf") != (r.kind == "inf"):
                per.append(([A("qnan", 0)], INV, INV))
            elif p.kind == "inf":
                per.append(([p], 0, 0))
            elif p.kind == "zero":
                er = None if r.rep is None else r.rep[1]
                per.append(([A("zero", p.sign, rep=None if er is None else (0, er))], 0, 0))
            elif ctx.known and r.rep and r.kind in ("fin", "zero") and ctx.fmt.etiny <= r.rep[1] <= ctx.fmt.emax:
                per += quantized(p, r.rep[1], ctx)
            else:
                per.append(([fin(p.sign, fmin(ctx.fmt), min(fmax(ctx.fmt), p.hi * 10)), A("zero", p.sign), A("qnan", 0)],
                            INEX | INV, 0))
    return finish(I, st, dst, ctx, group(per), max(st.q.get(a, 0), st.q.get(b, 0)), (a, b))


def m_scaleb(I, st, fr, args, e, lhs):
    dst, pa, pb, pc = args[:4]
    a, b = I.dn_get(st, pa), I.dn_get(st, pb)
    ctx = Ctx(I, st, pc)
    per = []
    for p in st.val[a].atoms:
        for r in st.val[b].atoms:
            if "snan" in (p.kind, r.kind):
                per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
            elif "qnan" in (p.kind, r.kind):
                per.append(([p if p.kind == "qnan" else r], 0, 0))
            elif r.kind == "inf":
                per.append(([A("qnan", 0)], INV, INV))
            else:
                lim = 2 * (ctx.fmt.p + ctx.fmt.emax)
                lo, hi = (D(0), D(0)) if r.kind == "zero" else (r.lo, r.hi)
                if r.kind == "fin" and (lo > lim or r.par == "nonint"):
                    per.append(([A("qnan", 0)], INV, INV))
                    continue
                if hi > lim or (r.kind == "fin" and r.par not in ("int", "odd", "even")):
                    per.append(([A("qnan", 0)], INV, INV))
                    hi = min(hi, D(lim))
                if p.kind in ("inf", "zero"):
                    per.append(([p._replace(rep=None, enc=None)], 0, 0))
                    continue
                l, h = int(lo), int(hi)
                if r.sign:
                    l, h = -h, -l
                at, my, mu = dround(ctx.fmt, p.sign, p.lo.scaleb(l), p.hi.scaleb(h), ctx.modes)
                per.append((at, my, mu & ~INEX))
    return finish(I, st, dst, ctx, group(per), max(st.q.get(a, 0), st.q.get(b, 0)), (a, b))


EXACT = decimal.Context(prec=14000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])
UP34 = decimal.Context(prec=60, rounding=decimal.ROUND_CEILING, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])


def m_remainder(near):
    def m(I, st, fr, args, e, lhs):
        dst, pa, pb, pc = args[:4]
        a, b = I.dn_get(st, pa), I.dn_get(st, pb)
        ctx = Ctx(I, st, pc)
        per = []

        def fits(p, r):
            """the integral quotient has no more digits than the context: True, False or None"""
            if p.hi < r.lo:
                return True
            n = p.hi.adjusted() - r.lo.adjusted() + 1
            if ctx.digits is not None:
                if p.lo == p.hi and r.lo == r.hi and n < 13000:
                    q = EXACT.divide_int(p.lo, r.lo)
                    return len(q.as_tuple().digits) <= ctx.digits
                if n <= ctx.digits:
                    return True
            t = ((("dndig", I.root(st, a)), 1), (("dnexp", I.root(st, a)), 1), (("dnexp", I.root(st, b)), -1))
            v = st.facts.get(("dnsum", tuple(sorted(t)), 0))
            if v is not None:
                z = st.val[v]
                if ctx.digits is not None and isinstance(z, IV) and z.hi <= ctx.digits:
                    return True
                d = I.read(st, ctx.p.obj, ctx.p.off, 4, ("int", 32, True)) if ctx.p is not None else None
                for _ in range(6):
                    if d == v:
                        return True
                    x = st.defs.get(d)
                    if x is None or x[0] != "cast":
                        break
                    d = x[1]
            return None
        for p in st.val[a].atoms:
            for r in st.val[b].atoms:
                if "snan" in (p.kind, r.kind):
                    per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                elif "qnan" in (p.kind, r.kind):
                    per.append(([p if p.kind == "qnan" else r], 0, 0))
                elif p.kind == "inf" or r.kind == "zero":
                    per.append(([A("qnan", 0)], INV, INV))
                elif r.kind == "inf":
                    per += rounded([p], ctx.fmt, ctx.modes)
                elif p.kind == "zero":
                    per.append(([A("zero", p.sign)], 0, 0))
                else:
                    ok = fits(p, r)
                    if ok is False:
                        per.append(([A("qnan", 0)], INV, INV))
                        continue
                    g = p.hi.adjusted() - r.lo.adjusted()
                    if p.lo == p.hi and r.lo == r.hi and g < 13000:
                        x, y = p.lo, r.lo
                        if g < -2:
                            z = x
                        else:
                            z = EXACT.remainder_near(x, y) if near else EXACT.remainder(x, y)
                        if z == 0:
                            at = [A("zero", p.sign)]
                        else:
                            s = p.sign ^ (z < 0)
                            at = [fin(s, abs(z), abs(z))]
                    else:
                        top = min(p.hi, UP34.divide(r.hi, 2) if near else r.hi)
                        low = p.lo if p.hi < (r.lo / 2 if near else r.lo) else TINY
                        at = [fin(p.sign, min(low, top), top)]
                        if low == TINY:
                            at.append(A("zero", p.sign))
                            if near:
                                at.append(fin(1 - p.sign, TINY, top))
                    if ok is None:
                        at.append(A("qnan", 0))
                    # exact, and no longer than the shorter operand
                    per += [([z], 0, 0) for z in at if z.kind == "fin"]
                    rest = [z for z in at if z.kind != "fin"]
                    if rest:
                        per.append((rest, INV if ok is None else 0, 0))
        return finish(I, st, dst, ctx, group(per), max(st.q.get(a, 0), st.q.get(b, 0)), (a, b))
    return m


def contract_frexp(w):
    """frexp of one finite value, by the contract its own cells establish; anything else is interpreted"""
    def m(I, st, fr, args, e, lhs):
        v = st.val[args[0]]
        p = st.val[args[1]]
        if not (isinstance(v, DV) and len(v.atoms) == 1 and v.atoms[0].kind == "fin" and isinstance(p, PV) and p.obj is not None and isinstance(p.off, int)):
            return "inline"
        a = v.atoms[0]
        n = a.lo.adjusted()
        if a.hi.adjusted() != n:
            return "inline"
        I.write(st, p.obj, p.off, 4, I.new(st, ic(32, True, n + 1)))
        return I.new(st, DV(w, [fin(a.sign, a.lo.scaleb(-n - 1, context=EXACT), a.hi.scaleb(-n - 1, context=EXACT))]), 0 if a.lo == a.hi else 2)
    return m


def contract_scale(w):
    """ldexp and scalbn of one finite value where nothing can be rounded, by the contract their own cells establish"""
    f = FMT[w]

    def m(I, st, fr, args, e, lhs):
        v, n = st.val[args[0]], st.val[args[1]]
        if not (isinstance(v, DV) and len(v.atoms) == 1 and v.atoms[0].kind == "fin" and isinstance(n, IV) and n.single):
            return "inline"
        a = v.atoms[0]
        if n.lo < -20000 or n.lo > 20000:
            return "inline"
        lo, hi = a.lo.scaleb(n.lo, context=EXACT), a.hi.scaleb(n.lo, context=EXACT)
        if lo.adjusted() < f.etiny + f.p or hi.adjusted() > f.emax:
            return "inline"
        return I.new(st, DV(w, [fin(a.sign, lo, hi)]), 0 if lo == hi else 2)
    return m


CONTRACTS = {"__frexpd%d" % w: contract_frexp(w) for w in (32, 64, 128)}
CONTRACTS.update({"__ldexpd%d" % w: contract_scale(w) for w in (32, 64, 128)})
CONTRACTS.update({"__scalbnd%d" % w: contract_scale(w) for w in (32, 64, 128)})


def m_fma(I, st, fr, args, e, lhs):
    dst, pa, pb, pc, px = args[:5]
    a, b, c = I.dn_get(st, pa), I.dn_get(st, pb), I.dn_get(st, pc)
    ctx = Ctx(I, st, px)
    per = []
    zs = sorted({1 if m == decimal.ROUND_FLOOR else 0 for m in ctx.modes})
    for p in st.val[a].atoms:
        for r in ([p] if a == b else st.val[b].atoms):
            for z in st.val[c].atoms:
                k = (p.kind, r.kind, z.kind)
                if "snan" in k:
                    per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                    continue
                s = p.sign ^ r.sign
                if "qnan" in k[:2]:
                    per.append(([p if p.kind == "qnan" else r], 0, 0))
                elif "inf" in k[:2] and "zero" in k[:2]:
                    per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                elif z.kind == "qnan":
                    per.append(([z], 0, 0))
                elif "inf" in k[:2]:
                    if z.kind == "inf" and z.sign != s:
                        per.append(([A("qnan", 0), A("qnan", 1)], INV, INV))
                    else:
                        per.append(([A("inf", s)], 0, 0))
                elif z.kind == "inf":
                    per.append(([A("inf", z.sign)], 0, 0))
                elif "zero" in k[:2]:
                    if z.kind == "zero":
                        per.append(([A("zero", s)] if s == z.sign else [A("zero", t) for t in zs], 0, 0))
                    else:
                        per += rounded([z], ctx.fmt, ctx.modes)
                else:
                    l, h = EXACT.multiply(p.lo, r.lo), EXACT.multiply(p.hi, r.hi)
                    if z.kind == "zero":
                        at, my, mu = dround(ctx.fmt, s, l, h, ctx.modes)
                        per.append((at, my, mu))
                        continue
                    if s:
                        l, h = -h, -l
                    zl, zh = (-z.hi, -z.lo) if z.sign else (z.lo, z.hi)
                    l, h = EXACT.add(l, zl), EXACT.add(h, zh)
                    if l == h == 0:
                        per.append(([A("zero", t) for t in zs], 0, 0))
                    else:
                        per.append(signed_round(ctx.fmt, l, h, ctx.modes, zs))
    return finish(I, st, dst, ctx, group(per), max(st.q.get(a, 0), st.q.get(b, 0), st.q.get(c, 0)), (a, b, c))


def m_reduce(I, st, fr, args, e, lhs):
    dst, pa, pc = args[:3]
    a = I.dn_get(st, pa)
    ctx = Ctx(I, st, pc)
    per = []
    for p in st.val[a].atoms:
        if p.kind == "snan":
            per.append(([A("qnan", p.sign)], INV, INV))
        elif p.kind == "fin":
            per += [(x, y, z) for x, y, z in rounded([p._replace(rep=None, enc=None)], ctx.fmt, ctx.modes)]
        else:
            per.append(([p._replace(rep=None, enc=None)], 0, 0))
    return finish(I, st, dst, ctx, group(per), st.q.get(a, 0), (a,))


def m_copy(I, st, fr, args, e, lhs):
    v = I.dn_get(st, args[1])
    I.dn_put(st, args[0], v)
    return args[0]


def m_copyhow(how):
    def m(I, st, fr, args, e, lhs):
        v = I.dn_get(st, args[1])
        n = I.new(st, sgnop(st.val[v], how), st.q.get(v, 0), ("sgn", how, v))
        I.dn_put(st, args[0], n)
        return args[0]
    return m


def m_copysign(I, st, fr, args, e, lhs):
    v, s = I.dn_get(st, args[1]), I.dn_get(st, args[2])
    sg = set(a.sign for a in st.val[s].atoms)
    out = [a._replace(sign=x) for a in st.val[v].atoms for x in sg]
    if len(sg) > 1:
        from .interp import NeedSplit
        raise NeedSplit(s)
    I.dn_put(st, args[0], I.new(st, dmerge(0, out), st.q.get(v, 0)))
    return args[0]


def m_zero(I, st, fr, args, e, lhs):
    I.dn_put(st, args[0], I.new(st, DV(0, [A("zero", 0, None, None, None, (0, 0))])))
    return args[0]


def m_fromint(sg):
    def m(I, st, fr, args, e, lhs):
        v = st.val[args[1]]
        atoms = []
        if isinstance(v, IV):
            lo, hi = v.lo, v.hi
            if lo < 0:
                atoms.append(fin(1, D(max(1, -hi)), D(-lo), None if lo != hi else parity(D(-lo)), (-lo, 0) if lo == hi else None))
            if hi > 0:
                atoms.append(fin(0, D(max(1, lo)), D(hi), None if lo != hi else parity(D(hi)), (hi, 0) if lo == hi else None))
            if lo <= 0 <= hi:
                atoms.append(A("zero", 0, None, None, None, (0, 0)))
            atoms = [a if a.kind != "fin" or a.par else a._replace(par="int") for a in atoms]
            q = st.q.get(args[1], 0)
        else:
            atoms, q = dtop(0).atoms, 2
        I.dn_put(st, args[0], I.new(st, DV(0, atoms), q))
        return args[0]
    return m


def cstr(I, st, pvid):
    """constant C string a pointer designates, or None"""
    p = st.val[pvid]
    if not isinstance(p, PV) or p.obj is None or not isinstance(p.off, int):
        return None
    o = I.objs[p.obj]
    if o.data is not None and (o.const or o.kind == "str"):
        b = o.data if isinstance(o.data, (bytes, bytearray)) else o.data.bytes
        b = bytes(b[p.off:])
        return b.split(b"\0")[0]
    out = bytearray()
    i = p.off
    m = st.mem.get(p.obj) or {}
    while i in m and m[i][0] == 1 and len(out) < 200:
        x = single(st.val[m[i][1]])
        if x is None:
            return None
        if x == 0:
            return bytes(out)
        out.append(x & 255)
        i += 1
    return None


def m_fromstring(I, st, fr, args, e, lhs):
    s = cstr(I, st, args[1])
    ctx = Ctx(I, st, args[2])
    if s is None:
        I.dn_put(st, args[0], I.new(st, dtop(0), 2))
        ctx.status(st, S_SYNTAX | S_INEX, 0)
        return args[0]
    try:
        dv = dconst(0, s.decode())
    except Exception:
        dv = DV(0, [A("qnan", 0)])
        ctx.status(st, S_SYNTAX, S_SYNTAX)
    g = group(rounded(dv.atoms, ctx.fmt, ctx.modes))
    return finish(I, st, args[0], ctx, g, 0)


def m_tonumber(w):
    def m(I, st, fr, args, e, lhs):
        p = I.ptr(st, args[0])
        if p.obj is None:
            v = I.top(st, ("dec", w))
        else:
            v = I.read(st, p.obj, p.off, w // 8, ("dec", w))
        dv = st.val[v]
        if not isinstance(dv, DV):
            dv = dtop(w)
        n = I.new(st, DV(0, dv.atoms), st.q.get(v, 0), ("dncopy", v))
        I.dn_put(st, args[1], n)
        return args[1]
    return m


def m_fromnumber(w):
    def m(I, st, fr, args, e, lhs):
        v = I.dn_get(st, args[1])
        ctx = Ctx(I, st, args[2])
        dv = st.val[v]
        q = st.q.get(v, 0)
        p = I.ptr(st, args[0])
        g = group(rounded(dv.atoms, FMT[w], ctx.modes))
        res = []
        src = st.val.get(v)
        ident = len(g) == 1 and all(x == y for x, y in zip(dmerge(w, g[0][0]).atoms, dmerge(w, dv.atoms).atoms)) \
            and len(dmerge(w, g[0][0]).atoms) == len(dv.atoms)
        dq, dsrc = I.depq(st, q, v)
        for atoms, may, must in g:
            s = st if len(g) == 1 else st.copy()
            if len(g) > 1:
                s.level = max(s.level, dq)
            n = dmerge(w, atoms)
            d = ("dncopy", v) if ident else None
            nv = I.new(s, n, q if ident else dq if n.single else max(dq, 1), d)
            if not ident:
                I.computed(s, nv, dsrc)
            if len(g) > 1:
                for x in dsrc:
                    s.last[x] = nv
                    s.ver[x] = s.ver.get(x, 0) + 1
            if p.obj is None:
                I.smear_all(s)
            else:
                I.write(s, p.obj, p.off, w // 8, nv)
            ctx.status(s, fe2st(may) | INFO, fe2st(must))
            res.append((s, args[0]))
        return args[0] if len(g) == 1 else res
    return m


def m_isnormal(sub):
    def m(I, st, fr, args, e, lhs):
        v = I.dn_get(st, args[0])
        ctx = Ctx(I, st, args[1])
        dv = st.val[v]
        lim = fminnorm(ctx.fmt)
        res = []
        for a in dv.atoms:
            if a.kind != "fin":
                res.append((a, 0))
                continue
            if a.lo < lim:
                res.append((a._replace(hi=min(a.hi, lim)) if a.hi >= lim else a, 1 if sub else 0))
            if a.hi >= lim:
                res.append((a._replace(lo=max(a.lo, lim)), 0 if sub else 1))
        ks = set(r for _, r in res)
        if len(ks) == 1:
            return I.new(st, ic(32, True, ks.pop()))
        out = []
        fl = I.forklevel(st, v, None)
        for k in ks:
            s = st.copy()
            s.level = max(s.level, fl)
            if I.setval(s, v, DV(0, [a for a, r in res if r == k])):
                out.append((s, I.new(s, ic(32, True, k))))
        return out
    return m


def m_shift(I, st, fr, args, e, lhs):
    a = I.dn_get(st, args[1])
    b = I.dn_get(st, args[2])
    ctx = Ctx(I, st, args[3])
    dv, by = st.val[a], st.val[b]
    n = None
    if len(by.atoms) == 1 and ctx.known:
        r = by.atoms[0]
        n = 0 if r.kind == "zero" else int(r.lo) if r.kind == "fin" and r.lo == r.hi and not r.sign and r.lo == int(r.lo) else None
    out = []
    q = st.q.get(a, 0)
    for p in dv.atoms:
        if p.kind == "snan":
            out.append(A("qnan", p.sign))
        elif p.kind in ("qnan", "inf"):
            out.append(p)
        elif p.kind == "zero":
            out.append(p)
        elif n is not None and (p.rep is not None or exact_coef(p)):
            # a shift to the left within the precision
            c1, c2, ex = (p.rep[0], p.rep[0], p.rep[1]) if p.rep is not None else p.enc
            k = 10 ** n
            if c2 * k < 10 ** ctx.digits:
                out.append(fin(p.sign, p.lo.scaleb(n, CTXN), p.hi.scaleb(n, CTXN), None if n == 0 or ex < 0 else "even",
                               (c1 * k, ex) if c1 == c2 else None)._replace(enc=None))
                continue
            q = 2
            out += [A("zero", p.sign), fin(p.sign, TINY, HUGE)]
        else:
            q = 2
            out += [A("zero", p.sign), fin(p.sign, TINY, HUGE)]
    q, src = I.depq(st, q, a, b)
    I.dn_put(st, args[0], I.computed(st, I.new(st, dmerge(0, out), q), src))
    return args[0]


# ------------------------------------------------------------------ libc
def m_errno(I, st, fr, args, e, lhs):
    o = I.gobj.get("<errno>")
    if o is None:
        o = I.newobj("<errno>", ("int", 32, True), 4, "opaque")
        o.extra = "errno"
        I.gobj["<errno>"] = o
    return I.new(st, PV(o.id, 0))


def m_raise(I, st, fr, args, e, lhs):
    v = st.val[args[0]]
    n = single(v)
    if n is not None:
        st.fe_may |= n
        st.fe_must |= n
    elif isinstance(v, IV):
        may, must = 0, 0xff
        for m, x in v.dj:
            may |= (x | ~m) & 0xff
            must &= x
        st.fe_may |= may & ALLFE
        st.fe_must |= must & ALLFE
    else:
        st.fe_may |= ALLFE
    I.event(st, "raise", (repr(v),))
    return I.new(st, ic(32, True, 0))


def m_clear(I, st, fr, args, e, lhs):
    n = single(st.val[args[0]])
    if n is not None:
        st.fe_may &= ~n
        st.fe_must &= ~n
    I.event(st, "clearexcept", (n,))
    return I.new(st, ic(32, True, 0))


def m_test(I, st, fr, args, e, lhs):
    return I.new(st, itop(32, True), 2)


def m_strlen(I, st, fr, args, e, lhs):
    s = cstr(I, st, args[0])
    if s is not None:
        return I.new(st, ic(64, False, len(s)))
    hi = (1 << 40)
    p = st.val[args[0]]
    if isinstance(p, PV) and p.obj is not None and isinstance(p.off, int):
        mem = st.mem.get(p.obj) or {}
        n = 0
        while "smear" not in mem:
            c = mem.get(p.off + n)
            v = st.val.get(c[1]) if c is not None and c[0] == 1 else None
            if not isinstance(v, IV) or v.lo <= 0 <= v.hi and not v.single:
                break
            if v.single and v.lo == 0:
                return I.new(st, ic(64, False, n))
            n += 1
    if isinstance(p, PV) and p.obj is not None:
        o = I.objs[p.obj]
        if o.size:
            hi = max(o.size - 1, 0)
    return I.new(st, iv(64, False, 0, hi), 2)


def m_memset(I, st, fr, args, e, lhs):
    p, c, n = st.val[args[0]], single(st.val[args[1]]), single(st.val[args[2]])
    if isinstance(p, PV) and p.obj is not None:
        if n is not None and isinstance(p.off, int) and n <= 4096:
            for i in range(n):
                I.write(st, p.obj, p.off + i, 1, I.new(st, ic(8, True, c) if c is not None else itop(8, True)))
        else:
            I.havoc_obj(st, p.obj)
    else:
        I.smear_all(st)
    return args[0]


def m_memcpy(I, st, fr, args, e, lhs):
    p, s, n = st.val[args[0]], st.val[args[1]], single(st.val[args[2]])
    if isinstance(p, PV) and p.obj is not None:
        if n is not None and isinstance(p.off, int) and isinstance(s, PV) and s.obj is not None and isinstance(s.off, int) and n <= 4096:
            src = st.mem.get(s.obj) or {}
            o = I.objs[s.obj]
            done = False
            if not (o.const and o.data is not None) and "smear" not in src:
                cells = [(k, c) for k, c in src.items() if s.off <= k and k + c[0] <= s.off + n]
                if sum(c[0] for _, c in cells) == n:
                    for k, c in cells:
                        I.write(st, p.obj, p.off + k - s.off, c[0], c[1])
                    done = True
            if not done:
                for i in range(n):
                    I.write(st, p.obj, p.off + i, 1, I.read(st, s.obj, s.off + i, 1, ("int", 8, False)))
        else:
            I.havoc_obj(st, p.obj)
    else:
        I.smear_all(st)
    return args[0]


def m_malloc(I, st, fr, args, e, lhs):
    n = single(st.val[args[0]])
    o = I.newobj("malloc", ("void",), n, "heap")
    s2 = st.copy()
    I.event(st, "malloc", (o.id,))
    return [(st, I.new(st, PV(o.id, 0))), (s2, I.new(s2, ic(64, False, 0)))]


def m_free(I, st, fr, args, e, lhs):
    p = st.val[args[0]]
    I.event(st, "free", (p.obj if isinstance(p, PV) else None,))
    return None


def m_noret(I, st, fr, args, e, lhs):
    return "noret"


def opaque(kind):
    def m(I, st, fr, args, e, lhs):
        I.event(st, kind, tuple(repr(st.val[a]) for a in args))
        if kind in ("freelocale", "fclose"):
            return I.new(st, ic(32, True, 0))
        o = I.newobj(kind, ("void",), None, "opaque")
        return I.new(st, PV(o.id, 0))
    return m


def m_expect(I, st, fr, args, e, lhs):
    return args[0]


def m_clz(w):
    def m(I, st, fr, args, e, lhs):
        v = st.val[args[0]]
        x = single(v)
        if x is not None and x > 0:
            return I.new(st, ic(32, True, w - x.bit_length()))
        return I.new(st, iv(32, True, 0, w - 1), 1)
    return m


def m_builtin_special(kind):
    def m(I, st, fr, args, e, lhs):
        t = I.ssat(fr, lhs[1]) if lhs and lhs[0] == "ssa" else None
        if t and t[0] == "dec":
            return I.new(st, DV(t[1], [A(kind, 0)]))
        return None
    return m


def m_sprintf(I, st, fr, args, e, lhs):
    fmt = cstr(I, st, args[1])
    p = st.val[args[0]]
    vs = [st.val[a] for a in args[2:]]
    if fmt is not None and isinstance(p, PV) and p.obj is not None and isinstance(p.off, int):
        I.event(st, "sprintf", (fmt, p.obj, p.off, tuple(vs)))
        r = sprintf_const(fmt, vs)
        if r is not None:
            for i, ch in enumerate(r + b"\0"):
                I.write(st, p.obj, p.off + i, 1, I.new(st, ic(8, True, ch)))
            return I.new(st, ic(32, True, len(r)))
        if fmt in (b"%u", b"%d", b"%lu", b"%ld", b"%llu", b"%lld", b"%x", b"%lx", b"%llx") and isinstance(vs[0], IV) and vs[0].lo >= 0:
            # a number of known length: its leading digits are known as far as both ends agree
            lo, hi = ((b"%x" if fmt[-1:] == b"x" else b"%d") % t for t in (vs[0].lo, vs[0].hi))
            if len(lo) == len(hi):
                same = True
                for i, (x, y) in enumerate(zip(lo, hi)):
                    if not same:
                        x, y = 48, 57 if fmt[-1:] != b"x" else 102
                    I.write(st, p.obj, p.off + i, 1, I.new(st, iv(8, True, x, y), 0 if x == y else 2))
                    same = same and x == y
                I.write(st, p.obj, p.off + len(lo), 1, I.new(st, ic(8, True, 0)))
                return I.new(st, ic(32, True, len(lo)))
        I.havoc_obj(st, p.obj)
    elif isinstance(p, PV) and p.obj is not None:
        I.havoc_obj(st, p.obj)
    return I.new(st, iv(32, True, 0, 1 << 20), 2)


def sprintf_const(fmt, vs):
    import re
    out, i = [], 0
    for part in re.split(rb"(%[-0-9.]*(?:ll|l|h)?[a-zA-Z%])", fmt):
        if part.startswith(b"%") and len(part) > 1:
            if part == b"%%":
                out.append(b"%")
                continue
            if i >= len(vs):
                return None
            x = single(vs[i])
            i += 1
            if x is None:
                return None
            c = re.sub(rb"(ll|l|h)", b"", part)
            if c[-1:] not in (b"d", b"u", b"x", b"X", b"c", b"o"):
                return None
            if c[-1:] == b"u":
                c = c[:-1] + b"d"
            out.append(c % x)
        else:
            out.append(part)
    return b"".join(out)


def nop(I, st, fr, args, e, lhs):
    return None


def arg0(I, st, fr, args, e, lhs):
    return args[0] if args else None


def table():
    t = {}
    t["decNumberAdd"] = ops("+")
    t["decNumberSubtract"] = ops("-")
    t["decNumberFMA"] = m_fma
    t["decNumberMultiply"] = ops("*")
    t["decNumberDivide"] = ops("/")
    t["decNumberAbs"] = unary(u_abs)
    t["decNumberMinus"] = unary(u_minus)
    t["decNumberPlus"] = unary(u_plus)
    t["decNumberToIntegralValue"] = t["decNumberToIntegralExact"] = unary(u_toint)
    t["decNumberSquareRoot"] = unary(u_sqrt)
    t["decNumberExp"] = unary(u_exp)
    t["decNumberLn"] = unary(mkln(False))
    t["decNumberLog10"] = unary(mkln(True))
    t["decNumberCompare"] = m_compare
    t["decNumberMax"] = m_maxmin(True)
    t["decNumberMin"] = m_maxmin(False)
    t["decNumberPower"] = m_power
    t["decNumberQuantize"] = m_quantize
    t["decNumberScaleB"] = m_scaleb
    t["decNumberRemainder"] = m_remainder(False)
    t["decNumberRemainderNear"] = m_remainder(True)
    t["decNumberNormalize"] = t["decNumberReduce"] = m_reduce
    t["decNumberCopy"] = m_copy
    t["decNumberCopyAbs"] = m_copyhow("abs")
    t["decNumberCopyNegate"] = m_copyhow("neg")
    t["decNumberCopySign"] = m_copysign
    t["decNumberZero"] = m_zero
    t["decNumberFromInt32"] = m_fromint(True)
    t["decNumberFromUInt32"] = m_fromint(False)
    t["decNumberFromString"] = m_fromstring
    t["decNumberIsNormal"] = m_isnormal(False)
    t["decNumberIsSubnormal"] = m_isnormal(True)
    t["decNumberShift"] = m_shift
    for w in (32, 64, 128):
        t["decimal%dToNumber" % w] = m_tonumber(w)
        t["decimal%dFromNumber" % w] = m_fromnumber(w)
        t["__host_to_ieee_%d" % w] = None
    for w in (32, 64, 128):
        del t["__host_to_ieee_%d" % w]
    t["__errno_location"] = m_errno
    t["feraiseexcept"] = t["fesetexcept"] = m_raise
    t["feclearexcept"] = m_clear
    t["fetestexcept"] = m_test
    t["strlen"] = m_strlen
    t["memset"] = m_memset
    t["memcpy"] = t["memmove"] = m_memcpy
    t["malloc"] = m_malloc
    t["free"] = m_free
    t["exit"] = t["abort"] = t["__assert_fail"] = m_noret
    t["newlocale"] = opaque("newlocale")
    t["freelocale"] = opaque("freelocale")
    t["fmemopen"] = opaque("fmemopen")
    t["fclose"] = opaque("fclose")
    t["setlocale"] = opaque("setlocale")
    t["__builtin_expect"] = m_expect
    t["__builtin_clzll"] = t["__builtin_clzl"] = m_clz(64)
    t["__builtin_clz"] = m_clz(32)
    t["__builtin_unreachable"] = m_noret
    for s in ("d32", "d64", "d128"):
        t["__builtin_inf" + s] = m_builtin_special("inf")
        t["__builtin_nan" + s] = m_builtin_special("qnan")
        t["__builtin_nans" + s] = m_builtin_special("snan")
    t["sprintf"] = m_sprintf
    t["raise"] = opaque("signal")
    return t
