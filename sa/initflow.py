"""Definite-initialisation dataflow: reads of a local that no path to the read can have written.

Per function a forward must-analysis keeps the set of locals that are *surely unwritten*; a store to any part of the local, or its address
reaching anything but a parameter the callee only reads, removes it.  What is read while still in the set is undefined on every path."""
from . import effects

SKIP = {"decContextDefault"}


class Init:
    def __init__(self, prog, E):
        self.prog, self.E = prog, E
        self.ro = {}
        self.nobl = 0

    # ------------------------------------------------------------ what a callee does with a pointer parameter
    def param_use(self, key, idx, depth=0):
        """(may write or leak, surely dereferences for reading somewhere)"""
        k = (key, idx)
        if k in self.ro:
            return self.ro[k]
        self.ro[k] = (True, False)
        F = self.prog.find(key[1], key[0])
        if F is None or idx >= len(F.params) or depth > 8:
            return self.ro[k]
        p = F.params[idx][0]
        der = set()

        def ment(e):
            return any(x[0] == "ssad" and len(x) > 2 and x[2] == p or x[0] in ("param", "var") and x[1] == p or x[0] in ("ssa", "ssad") and x[1] in der
                       for x in effects.walk(e))
        grown = True
        while grown:
            grown = False
            for b in F.blocks.values():
                for s in b:
                    if s[0] == "assign" and s[1][0] in ("ssa", "ssad") and s[1][1] not in der and ment(s[2]) and not isload(s[2]):
                        der.add(s[1][1])
                        grown = True
                    elif s[0] == "phi" and s[1][1] not in der and any(ment(x[1]) for x in s[2]):
                        der.add(s[1][1])
                        grown = True
        wr = rd = False
        for b in F.blocks.values():
            for s in b:
                if s[0] == "assign":
                    if s[1][0] not in ("ssa", "ssad") and (ment(s[1]) or ment(s[2]) and not isload(s[2])):
                        wr = True
                    if ment(s[2]) and isload(s[2]):
                        rd = True
                elif s[0] == "call":
                    if s[1] is not None and s[1][0] not in ("ssa", "ssad") and ment(s[1]):
                        wr = True
                    for i, a in enumerate(s[2][2]):
                        if ment(a):
                            if isload(a):
                                rd = True
                                continue
                            t = self.E.resolve(s[2][1][1], key[0]) if s[2][1][0] == "glob" else None
                            w, r = self.param_use(t, i, depth + 1) if t else (True, False)
                            wr, rd = wr or w, rd or r
                elif s[0] == "return" and s[1] is not None and ment(s[1]):
                    wr = True
        self.ro[k] = (wr, rd)
        return self.ro[k]

    # ------------------------------------------------------------ one function
    def check(self, F):
        """-> [(local, how, loc)]"""
        pn = {p[0] for p in F.params}
        succ, pred = {}, {}
        for b, ss in F.blocks.items():
            t = []
            for s in ss:
                if s[0] == "goto":
                    t.append(s[1])
                elif s[0] == "if":
                    t += [s[2], s[3]]
                elif s[0] == "switch":
                    t.append(s[2])
                    t += [x[2] for x in s[3]]
            succ[b] = [x for x in t if x in F.blocks]
        locs = {n for n in F.decls if n not in pn and n not in F.statics}
        # only locals that live in memory are mentioned as variables
        inn = {F.entry: frozenset(locs)}
        work = [F.entry]
        bad = {}
        while work:
            b = work.pop()
            un = set(inn[b])
            self.block(F, b, un, bad)
            o = frozenset(un)
            for t in succ[b]:
                n = o if t not in inn else inn[t] & o
                if t not in inn or n != inn[t]:
                    inn[t] = n
                    work.append(t)
        bad.clear()
        for b in inn:
            self.block(F, b, set(inn[b]), bad)
        # scalars in SSA form: the default definition of something that is no parameter
        for b in inn:
            for s in F.blocks[b]:
                if s[0] == "phi":
                    continue
                for e in reads(s):
                    for x in effects.walk(e):
                        if x[0] == "ssad" and len(x) > 2:
                            self.nobl += 1
                            if x[2] in locs:
                                bad.setdefault((x[2], s[-1]), "value")
        return [(n, how, loc) for (n, loc), how in bad.items()]

    def block(self, F, b, un, bad):
        for s in F.blocks[b]:
            if s[0] == "assign":
                self.expr(F, s[2], un, bad, s[-1])
                lv = s[1]
                if lv[0] not in ("ssa", "ssad"):
                    o = effects.base(lv)
                    if o is not None and o[0] == "var":
                        un.discard(o[1])
            elif s[0] == "call":
                c = s[2]
                fn = c[1][1] if c[1][0] == "glob" else None
                for i, a in enumerate(c[2]):
                    if a[0] == "addr":
                        o = effects.base(a[1])
                        if o is None or o[0] != "var" or o[1] not in un:
                            continue
                        t = self.E.resolve(fn, F.unit) if fn else None
                        w, r = self.param_use(t, i) if t else (True, False)
                        self.nobl += 1
                        if not w and r:
                            bad.setdefault((o[1], s[-1]), "contents passed to " + fn)
                        elif t and "decContext" in str(F.decls.get(o[1])) and "*" not in str(F.decls.get(o[1])) and fn not in SKIP and r:
                            bad.setdefault((o[1], s[-1]), "context passed to " + fn)
                        if w:
                            un.discard(o[1])
                    else:
                        self.expr(F, a, un, bad, s[-1])
                if s[1] is not None and s[1][0] not in ("ssa", "ssad"):
                    o = effects.base(s[1])
                    if o is not None and o[0] == "var":
                        un.discard(o[1])
            elif s[0] in ("if", "switch", "return") and s[1] is not None:
                self.expr(F, s[1], un, bad, s[-1])
            elif s[0] == "phi":
                for x in s[2]:
                    for y in effects.walk(x[1]):
                        if y[0] == "addr":
                            o = effects.base(y[1])
                            if o and o[0] == "var":
                                un.discard(o[1])
            elif s[0] == "asm":
                un.clear()

    def expr(self, F, e, un, bad, loc):
        taken = set()
        for x in effects.walk(e):
            if x[0] == "addr":
                o = effects.base(x[1])
                if o is not None and o[0] == "var":
                    taken.add(o[1])
        for x in effects.walk(e):
            if x[0] == "var" and x[1] not in taken:
                self.nobl += 1
                if x[1] in un:
                    bad.setdefault((x[1], loc), "contents")
        un -= taken


def isload(e):
    return e[0] in ("mem", "deref", "comp", "idx", "arrow", "bfr", "glob", "var") or e[0] == "cast" and isload(e[-1])


def reads(s):
    if s[0] == "assign":
        return [s[2]] + ([s[1]] if s[1][0] not in ("ssa", "ssad") else [])
    if s[0] == "call":
        return list(s[2][2]) + ([s[2][1]] if s[2][1][0] != "glob" else [])
    if s[0] in ("if", "switch", "return") and s[1] is not None:
        return [s[1]]
    return []
