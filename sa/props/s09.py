"""S09: every constant table holds the numbers its algorithm is derived from."""
import re
from fractions import Fraction

EXPLANATION = ("Each initialised constant object of every translation unit (bytes taken from the compiler's assembler output of the "
               "current tree) is compared with its mathematical definition: powers of ten and their scaled reciprocals, digit "
               "counts, rounding increments, DPD codings, logarithm/exponential tables, and the minimax rational approximations, "
               "which are evaluated against the function they approximate over the whole interval they are used on.")
RULE = "table element == definition (exact for integer tables, within the approximation's stated error for decimal ones)"
ASSUMPTIONS = ["an approximation is sampled at 49 points of its interval (a wrong coefficient changes a polynomial of degree <= 12 "
               "at all but 12 points)",
               "tables nothing refers to are not obligations",
               "a table that was renamed or laid out differently is not recognised and counts as undecided"]


def bid64(w):
    s = w >> 63
    if (w >> 61) & 3 == 3:
        if (w >> 59) & 15 == 15:
            return None
        e, c = (w >> 51) & 0x3ff, (w & ((1 << 51) - 1)) | (1 << 53)
    else:
        e, c = (w >> 53) & 0x3ff, w & ((1 << 53) - 1)
    return s, c, e - 398


def bid128(w):
    s = w >> 127
    if (w >> 125) & 3 == 3:
        return None
    return s, w & ((1 << 113) - 1), ((w >> 113) & 0x3fff) - 6176


D64 = {"__factorialDD", "__oneOverfactDD"}


class View:
    def __init__(self, objs):
        self.objs = objs
        self.cache = {}

    def __call__(self, name):
        if name not in self.cache:
            from ..numtables import mpf
            b = bytes(self.objs[name].bytes)
            n, dec = (8, bid64) if name in D64 else (16, bid128)
            out = []
            for i in range(0, len(b) - n + 1, n):
                d = dec(int.from_bytes(b[i:i + n], "little"))
                if d is None:
                    out.append(mpf("inf"))
                else:
                    v = mpf(d[1]) * mpf(10) ** d[2]
                    out.append(-v if d[0] else v)
            self.cache[name] = out
        return self.cache[name]

    def arc(self):
        from ..numtables import mpmath
        return mpmath.asin if "asinr5625" in self.objs else mpmath.acos


def referenced(prog):
    """names some function body or some other object refers to"""
    import os
    out = set()
    word = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*")
    for n, u in prog.tree.units.items():
        if not os.path.exists(u.dump):
            continue                    # a unit without functions
        with open(u.dump, "rb") as f:
            out |= set(word.findall(f.read()))
    out = {x.decode() for x in out}
    for n, a in prog.asm.items():
        for o in a["objs"].values():
            for s, _ in o.relocs.values():
                out.add(s)
    return out


def check_unit(prog, unit, refs):
    """-> (ok count, [(key, msg)], [(key, undecided reason)], cov)"""
    from .. import tables, numtables
    objs = prog.asm[unit]["objs"]
    ok, bad, und, elems = 0, [], [], 0
    for name, o in objs.items():
        if name not in tables.TABLES or not o.size or name not in refs:
            continue
        elem, fn, _ = tables.TABLES[name]
        es = sum(elem)
        if (o.size % es and name != "BIN2CHAR") or len(o.bytes) < o.size:
            und.append(("%s:%s" % (unit, name), "unexpected layout"))
            continue
        for i in range(o.size // es):
            w = fn(i)
            if w is None:
                continue
            off = i * es
            wrong = []
            for k, (sz, x) in enumerate(zip(elem, w)):
                v = int.from_bytes(o.bytes[off:off + sz], "little")
                off += sz
                if x is None:
                    continue
                elems += 1
                x &= (1 << 8 * sz) - 1
                if v != x:
                    wrong.append("word %d is %#x, its definition gives %#x" % (k, v, x))
            if wrong:
                bad.append(("%s[%d]" % (name, i), unit, "; ".join(wrong)))
            else:
                ok += 1
    for f in tables.GROUPS:
        r = f(objs, refs)
        if r is None:
            continue
        ok += r[0]
        elems += r[0]
        bad += [(k, unit, m) for k, m in r[1]]
    v = View(objs)
    for label, names, f in numtables.RULES:
        if any(n not in objs or not objs[n].size for n in names):
            continue
        if names[0] == "P1" and "Q0" in objs:
            continue
        # single constants are folded into their users' expressions, so only arrays have to be mentioned
        if not all(n in refs for n in names if objs[n].size > 16):
            continue
        r = f(v)
        elems += sum(len(v(n)) for n in names)
        if r:
            bad += [(label, unit, m) for m in r]
        else:
            ok += 1
    return ok, bad, und, elems


def run(ctx):
    ctx.load()
    prog = ctx.prog
    refs = referenced(prog)

    def job(u):
        return u, check_unit(prog, u, refs)

    units = [n for n, a in prog.asm.items() if a["objs"]]
    tot = 0
    for u, (ok, bad, und, elems) in ctx.pmap(job, sorted(units), chunk=2):
        ctx.ok(ok)
        tot += elems
        for k, unit, m in bad:
            ctx.violate("table:%s:%s" % (unit, k), "%s (in %s)" % (k, unit), m)
        for k, w in und:
            ctx.undec(k, w)
    ctx.cov["table_elements_compared"] = tot
    ctx.min_obligations = 3000
