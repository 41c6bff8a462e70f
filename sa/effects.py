"""Flow-insensitive facts about every function of the program: what it calls, which globals it stores to, reads or takes the
address of; the call graph over them; and the exported interface."""
import os, re


def walk(e):
    """all sub-expressions (tuples) of an expression"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, (tuple, list)))
        elif isinstance(x, list):
            st.extend(x)


def base(lv):
    """variable an lvalue belongs to: ('glob', n), ('var', n) or None (through a pointer)"""
    while isinstance(lv, tuple):
        if lv[0] in ("glob", "var"):
            return lv
        if lv[0] in ("mem", "deref"):
            for x in walk(lv):
                if x[0] == "addr":
                    return base(x[1])
            return None
        if lv[0] == "addr":
            return base(lv[1])
        if len(lv) > 1 and isinstance(lv[1], tuple):
            lv = lv[1]
            continue
        nxt = [y for y in lv[1:] if isinstance(y, tuple)]
        if not nxt:
            return None
        lv = nxt[0]
    return None


class Facts:
    __slots__ = ("unit", "name", "calls", "stores", "reads", "addrs", "indirect", "ptrstores", "loc")

    def __init__(self, unit, name):
        self.unit, self.name = unit, name
        self.calls = []       # (callee name, args, loc)
        self.stores = []      # (global name, loc)
        self.reads = set()
        self.addrs = []       # (global name, loc, context statement)
        self.indirect = []    # loc
        self.ptrstores = []   # (lvalue, loc)
        self.loc = None


def facts_of(f):
    F = Facts(f.unit, f.name)
    F.loc = f.loc
    for b in f.blocks.values():
        for s in b.stmts if hasattr(b, "stmts") else b:
            k = s[0]
            loc = s[-1]
            rhs = []
            if k == "assign":
                lv, rhs = s[1], [s[2]]
                if lv[0] not in ("ssa", "ssad"):
                    o = base(lv)
                    if o is None:
                        F.ptrstores.append((lv, loc))
                    elif o[0] == "glob":
                        F.stores.append((o[1], loc))
                    # index expressions are reads
                    for x in walk(lv):
                        if x[0] == "addr":
                            pass
            elif k == "call":
                lv, c = s[1], s[2]
                if lv is not None and lv[0] not in ("ssa", "ssad"):
                    o = base(lv)
                    if o is None:
                        F.ptrstores.append((lv, loc))
                    elif o[0] == "glob":
                        F.stores.append((o[1], loc))
                if c[1][0] == "glob":
                    F.calls.append((c[1][1], c[2], loc))
                elif c[1][0] == "addr" and c[1][1][0] == "glob":
                    F.calls.append((c[1][1][1], c[2], loc))
                else:
                    F.indirect.append(loc)
                    rhs = [c[1]]
                rhs = rhs + list(c[2])
            elif k in ("if", "switch", "return"):
                rhs = [s[1]]
            elif k == "phi":
                rhs = [x[1] for x in s[2]]
            for e in rhs:
                inaddr = set()
                for x in walk(e):
                    if x[0] == "addr":
                        o = base(x[1])
                        if o is not None and o[0] == "glob":
                            F.addrs.append((o[1], loc, s))
                            inaddr.add(o[1])
                for x in walk(e):
                    if x[0] == "glob" and x[1] not in inaddr:
                        F.reads.add(x[1])
    return F


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.facts = {}
        for u, ir in prog.irs.items():
            for n in ir.raw:
                self.facts[u, n] = facts_of(ir.func(n))
        self._edges = {}

    def resolve(self, name, unit):
        f = self.prog.find(name, unit)
        return (f.unit, f.name) if f is not None else None

    def callees(self, k):
        if k not in self._edges:
            r, ext = set(), set()
            F = self.facts[k]
            for n, _, _ in F.calls:
                t = self.resolve(n, k[0])
                (r.add(t) if t else ext.add(n))
            for n, _, _ in F.addrs:
                t = self.resolve(n, k[0])
                if t:
                    r.add(t)          # a function whose address is taken may be called
            self._edges[k] = (r, ext)
        return self._edges[k]

    def reach(self, roots, stop=()):
        seen, st = set(), [k for k in roots]
        while st:
            k = st.pop()
            if k in seen or k in stop or k not in self.facts:
                continue
            seen.add(k)
            st.extend(self.callees(k)[0])
        return seen

    def callers(self):
        r = {}
        for k in self.facts:
            for c in self.callees(k)[0]:
                r.setdefault(c, set()).add(k)
        return r

    def path(self, src, dst):
        """a shortest call chain"""
        prev = {src: None}
        q = [src]
        while q:
            n = []
            for k in q:
                if k == dst:
                    out = []
                    while k is not None:
                        out.append(k[1])
                        k = prev[k]
                    return " -> ".join(reversed(out))
                for c in sorted(self.callees(k)[0]):
                    if c not in prev and c in self.facts:
                        prev[c] = k
                        n.append(c)
            q = n
        return None


def exports(prog, repo="/repo"):
    """names in the ABI list of the platform built here"""
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "sysdeps", "x86_64")):
        for f in fs:
            if f.endswith(".abilist"):
                for l in open(os.path.join(d, f)):
                    m = re.match(r"\s+\S+ (\S+) F$|^ (\S+) F$", l)
                    if m:
                        out.append(m.group(1) or m.group(2))
    return sorted(set(out))
