"""Typestate of resources: every memory block, stream and locale object is released exactly once on every path out of the function
that acquired it, not used afterwards, and not used before its acquisition is known to have succeeded.

Per acquisition a forward may-analysis keeps which of {U: held or null, H: held, F: released} are possible at each point; the names that
hold the resource are the closure of the result through copies, casts and phis.  A test of such a name against null removes U and H on the
null side and turns U into H on the other.  Functions
that release their parameter on every path, hand their acquisition to the caller, or keep it, are summarised, so helpers may be used."""
from .effects import walk, base

ACQ = {"malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free", "strndup": "free", "fopen": "fclose", "fmemopen": "fclose",
       "open_memstream": "fclose", "fdopen": "fclose", "newlocale": "freelocale", "duplocale": "freelocale", "__newlocale": "freelocale", "__duplocale": "freelocale"}
REL = {"free": "free", "cfree": "free", "fclose": "fclose", "freelocale": "freelocale", "__freelocale": "freelocale"}
KEEPS = {"uselocale", "setvbuf", "atexit", "pthread_setspecific"}
SSA = ("ssa", "ssad")


def strip(e):
    while isinstance(e, tuple) and e[0] in ("cast", "conv", "nop", "lit", "view") and len(e) > 2 and isinstance(e[-1], tuple):
        e = e[-1]
    return e


def iszero(e):
    e = strip(e)
    return e[0] == "const" and e[1] == 0


class Typestate:
    def __init__(self, prog, E):
        self.prog, self.E = prog, E
        self._give, self._par = {}, {}
        self.sites = 0

    def succ(self, F):
        r = {}
        for b, ss in F.blocks.items():
            t = []
            for s in ss:
                if s[0] == "goto":
                    t.append((s[1], None))
                elif s[0] == "if":
                    t += [(s[2], (s[1], True)), (s[3], (s[1], False))]
                elif s[0] == "switch":
                    t.append((s[2], None))
                    t += [(x[2], None) for x in s[3]]
            r[b] = [x for x in t if x[0] in F.blocks]
        return r

    def key(self, e):
        e = strip(e)
        if e[0] in SSA:
            return e[1]
        if e[0] in ("param", "var"):
            return e[1]
        return None

    def names(self, F, seed, byparam=None):
        """closure of the names that hold the value"""
        N = {seed} if seed else set()

        def holds(e):
            e = strip(e)
            if e[0] in SSA and (e[1] in N or byparam and len(e) > 2 and e[0] == "ssad" and e[2] == byparam and e[1].endswith("(D)")):
                return True
            return bool(byparam) and (e[0] == "ssad" and e[-1] == byparam or e[0] == "param" and e[1] == byparam)
        esc = None
        grown = True
        while grown:
            grown = False
            for b in F.blocks.values():
                for s in b:
                    if s[0] == "assign" and holds(s[2]):
                        if s[1][0] in SSA:
                            if s[1][1] not in N:
                                N.add(s[1][1])
                                grown = True
                        else:
                            esc = s[-1]
                    elif s[0] == "phi" and s[1][1] not in N and any(holds(x[1]) for x in s[2]):
                        N.add(s[1][1])
                        grown = True
        return N, holds, esc

    # what a function does with a pointer parameter: 'rel' (released on every path), 'keep' (may be stored), 'use'
    def param(self, key, i, depth=0):
        k = (key, i)
        if k in self._par:
            return self._par[k]
        self._par[k] = ("use", None)
        F = self.prog.find(key[1], key[0])
        if F is None or i >= len(F.params) or depth > 6:
            return self._par[k]
        N, holds, esc = self.names(F, None, F.params[i][0])
        if esc:
            self._par[k] = ("keep", None)
            return self._par[k]
        r = self.flow(F, holds, None, depth + 1)
        if r["keep"]:
            v = ("keep", None)
        elif r["rel"] and not r["leak"]:
            v = ("rel", r["how"])
        else:
            v = ("use", None)
        self._par[k] = v
        return v

    def callee(self, F, c):
        if c[1][0] != "glob":
            return None, None
        n = c[1][1]
        return n, self.E.resolve(n, F.unit)

    def gives(self, key, depth=0):
        """release function of a resource the function acquires and returns, or None"""
        if key in self._give:
            return self._give[key]
        self._give[key] = None
        F = self.prog.find(key[1], key[0])
        if F is None or depth > 4:
            return None
        for site, rel, lv, loc in self.acquisitions(F, depth + 1):
            if lv is None:
                continue
            N, holds, esc = self.names(F, lv)
            for b in F.blocks.values():
                for s in b:
                    if s[0] == "return" and s[1] is not None and holds(s[1]):
                        self._give[key] = rel
        return self._give[key]

    def acquisitions(self, F, depth=0):
        for bn, b in F.blocks.items():
            for i, s in enumerate(b):
                if s[0] != "call":
                    continue
                n, t = self.callee(F, s[2])
                rel = ACQ.get(n) if t is None else self.gives(t, depth)
                if rel:
                    lv = s[1][1] if s[1] is not None and s[1][0] in SSA else None
                    yield (bn, i), rel, lv, s[-1]

    def surely(self, F, start):
        """acquisitions that cannot fail: the C locale is a static object"""
        s = F.blocks[start[0]][start[1]]
        n, t = self.callee(F, s[2])
        return "newlocale" in (n or "") and len(s[2][2]) == 3 and iszero(s[2][2][2]) and any(x[0] == "str" and x[1].strip('"') in ("C", "POSIX") for x in walk(s[2][2][1]))

    def flow(self, F, holds, start, depth=0):
        """start: (block, index) of the acquisition or None for function entry"""
        out = {"leak": None, "double": None, "after": None, "keep": None, "rel": False, "how": None, "null": None}
        succ = self.succ(F)
        inn, src = {}, {}
        H = frozenset("H" if start is None or self.surely(F, start) else "U")
        work = []

        def step(bn, st, i0):
            for s in F.blocks[bn][i0:]:
                if not st:
                    return st
                if s[0] == "call":
                    n, t = self.callee(F, s[2])
                    for i, a in enumerate(s[2][2]):
                        if not holds(a):
                            continue
                        if t is None and n in REL:
                            what = "rel"
                            how = REL[n]
                        elif t is not None:
                            what, how = self.param(t, i, depth)
                        else:
                            what, how = ("keep" if n in KEEPS or n is None else "use"), None
                        if "U" in st and not (what == "rel" and how == "free") and what != "keep":
                            out["null"] = out["null"] or s[-1] or F.loc
                            st = st - {"U"} | {"H"}
                        if what == "rel":
                            if st == frozenset("F"):
                                out["double"] = out["double"] or s[-1] or F.loc
                            out["rel"], out["how"] = True, how
                            st = frozenset("F")
                        elif what == "keep":
                            out["keep"] = s[-1]
                            return frozenset()
                        elif st == frozenset("F"):
                            out["after"] = out["after"] or s[-1] or F.loc
                    if n in ("abort", "exit", "_exit", "__assert_fail", "__builtin_unreachable"):
                        return frozenset()
                elif s[0] == "assign":
                    lv = s[1][0] not in SSA and any(holds(x) for x in walk(s[1]) if x[0] in ("ssa", "ssad", "param"))
                    rv = s[2][0] in ("mem", "deref") and any(holds(x) for x in walk(s[2]) if x[0] in ("ssa", "ssad", "param"))
                    if lv or rv:
                        if st == frozenset("F"):
                            out["after"] = out["after"] or s[-1] or F.loc
                        elif "U" in st:
                            out["null"] = out["null"] or s[-1] or F.loc
                            st = st - {"U"} | {"H"}
                elif s[0] == "return":
                    if s[1] is not None and holds(s[1]):
                        out["keep"] = s[-1]
                    elif st & {"H", "U"}:
                        out["leak"] = out["leak"] or s[-1] or src.get(bn) or F.loc
                    return frozenset()
            return st
        if start is None:
            init = [(F.entry, H, 0)]
        else:
            init = [(start[0], H, start[1] + 1)]
        first = init[0]
        st = step(first[0], first[1], first[2])

        def push(bn, st):
            for t, cond in succ[bn]:
                s2 = st
                if cond:
                    e, side = cond
                    if e[0] == "bin" and e[1] in ("==", "!="):
                        a, b = e[2], e[3]
                        if iszero(a):
                            a, b = b, a
                        if iszero(b) and holds(a):
                            s2 = st - {"H", "U"} if (e[1] == "==") == side else frozenset("H" if x == "U" else x for x in st)
                if not s2:
                    continue
                # the acquisition itself reached again while held: a new resource
                new = inn.get(t, frozenset()) | s2
                if s2 & {"H", "U"} and not inn.get(t, frozenset()) & {"H", "U"}:
                    at = [x[-1] for x in F.blocks[bn] if isinstance(x[-1], tuple) and len(x[-1]) == 2 and isinstance(x[-1][0], str)]
                    src[t] = at[-1] if at else src.get(bn)
                if new != inn.get(t):
                    inn[t] = new
                    work.append(t)
        push(first[0], st)
        while work:
            b = work.pop()
            st = inn[b]
            if start and b == start[0]:
                # up to the acquisition, the old resource; it must be gone by then
                pre = frozenset(st)
                for s in F.blocks[b][:start[1]]:
                    if s[0] == "call":
                        n, t = self.callee(F, s[2])
                        for i, a in enumerate(s[2][2]):
                            if holds(a) and (n in REL if t is None else self.param(t, i, depth)[0] == "rel"):
                                pre = frozenset("F")
                if pre & {"H", "U"}:
                    out["leak"] = out["leak"] or F.blocks[b][start[1]][-1]
                continue
            push(b, step(b, st, 0))
        return out

    def check(self, F):
        """-> [(what, acquired at, offending place)], obligations"""
        bad, n = [], 0
        for site, rel, lv, loc in self.acquisitions(F):
            self.sites += 1
            n += 4
            if lv is None:
                s = F.blocks[site[0]][site[1]]
                if s[1] is None:
                    bad.append(("the result is discarded", rel, loc, loc))
                continue
            N, holds, esc = self.names(F, lv)
            if esc:
                continue
            r = self.flow(F, holds, site)
            if r["leak"]:
                bad.append(("not released on a path that ends", rel, loc, r["leak"]))
            if r["double"]:
                bad.append(("released twice, again", rel, loc, r["double"]))
            if r["after"]:
                bad.append(("used after its release", rel, loc, r["after"]))
            if r["null"]:
                bad.append(("used, where it may be null because the acquisition failed,", rel, loc, r["null"]))
            if r["rel"] and r["how"] not in (rel, None):
                bad.append(("released with %s, not" % r["how"], rel, loc, loc))
        return bad, n
