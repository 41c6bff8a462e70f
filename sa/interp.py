"""Path-sensitive abstract interpreter over GIMPLE/SSA.

One run analyses one function for one abstract input cell: every path through the
function and the library functions it calls (inlined) that the abstract semantics
cannot exclude is followed; loops whose exit is undecided are cut by havocking what
they modify.  Each path ends in an Outcome (abstract result, effects, and a `level`
that says how the path's branch decisions were obtained):
   0  every branch taken is decided, or is an exact partition of the input cell
   1  branches on the unknown outcome of arithmetic (both outcomes are real)
   2  branches on values the abstraction lost (the path may be infeasible)
"""
import re, sys, time
from . import ctypes_ as T
from .domain import *
from .gimple import UnitIR, ParseError

FE_MODES_BID = {0: MODES[0], 1: MODES[3], 2: MODES[2], 3: MODES[1], 4: MODES[4]}


# events that are undefined behaviour ("?" = cannot be excluded by the abstraction)
UNDEF = {"oob", "oob?", "uninit", "nullderef", "constwrite", "wildwrite", "shift", "shift?", "divzero", "dangling"}


FLIP = str.maketrans("<>", "><")


class Giveup(Exception):
    """analysis budget or an unsupported construct; the obligation is undecided"""


class NeedSplit(Exception):
    def __init__(self, vid, parts=None):
        self.vid, self.parts = vid, parts


class Dead(Exception):
    """this path is infeasible / ends without returning"""


class Obj:
    __slots__ = ("id", "name", "t", "size", "kind", "data", "unit", "const", "tls", "extra")

    def __init__(self, id, name, t, size, kind, data=None, unit=None, const=False):
        self.id, self.name, self.t, self.size, self.kind = id, name, t, size, kind
        self.data, self.unit, self.const = data, unit, const
        self.tls = False
        self.extra = None

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Program:
    def __init__(self, tree):
        self.tree = tree
        self.irs = {}
        self.fn = {}         # external function name -> unit name
        self.asm = {}
        self.alias = {}
        self.gdata = {}
        self.tdb = {}
        from . import asmdata
        for n, u in tree.units.items():
            if not u.dump:
                continue
            ir = UnitIR(n, u.dump)
            self.irs[n] = ir
            a = asmdata.parse_asm(n, u.asm)
            self.asm[n] = a
            dec = n.startswith("libdecnumber/")
            for f in ir.names():
                # a function with only a hidden alias is assembled under that name
                if f in a["globals"] or f in a["funcs"] or "__GI_" + f in a["globals"]:
                    if f in a["globals"] or "__GI_" + f in a["globals"]:
                        if f not in self.fn or not dec:
                            self.fn.setdefault(f, n)
            for x, y in a["aliases"].items():
                if not dec:
                    self.alias.setdefault(x, y)
            for o in a["objs"].values():
                if o.glob and (o.name not in self.gdata or o.size > 0 and not self.gdata[o.name].size):
                    self.gdata[o.name] = o
            self.tdb[n] = T.TypeDB((lambda nn: (lambda: tree.dwarf_text(nn)))(n))

    def find(self, name, unit=None):
        """Func for a C-level name as seen from `unit`, or None."""
        if unit and name in self.irs[unit].raw:
            return self.irs[unit].func(name)
        seen = set()
        n = name
        while n not in self.fn and n in self.alias and n not in seen:
            seen.add(n)
            n = self.alias[n]
        u = self.fn.get(n)
        if u is None and n.startswith("__GI_"):       # assembler name of a function with a hidden alias
            n = n[5:]
            u = self.fn.get(n)
        if u is None:
            return None
        return self.irs[u].func(n)

    def unwritten(self):
        """writable objects that no statement of the program stores to and whose address is never taken:
        set of names (external objects) and (unit, name) pairs (unit-local ones)"""
        if getattr(self, "_unwritten", None) is not None:
            return self._unwritten
        ext, loc = {}, {}
        refd = set()
        for n, a in self.asm.items():
            for o in a["objs"].values():
                for sym, _ in o.relocs.values():
                    refd.add(sym)
                if o.writable and not o.tls and o.size and o.bytes and o.name[0] not in ".0123456789":
                    (ext if o.glob else loc.setdefault(n, {}))[o.name] = 1
            for x, y in a["aliases"].items():
                refd.add(y)
        refd |= set(y for a in self.asm.values() for y in a["aliases"].values())
        bad = set()
        loc_re = re.compile(r"\[[^][\s]*:\d+:\d+(?: discrim \d+)?\] ")
        for n, ir in self.irs.items():
            names = set(ext) | set(loc.get(n, ()))
            if not names:
                continue
            # a static local x is called x.N in the assembler and x in the dump
            short = {}
            for x in loc.get(n, ()):
                b = x.rsplit(".", 1)
                short.setdefault(b[0] if len(b) == 2 and b[1].isdigit() else x, []).append(x)
            names = set(ext) | set(short)
            pat = re.compile(r"(?<![\w.$])(%s)(?![\w$])" % "|".join(map(re.escape, sorted(names, key=len, reverse=True))))
            for f in ir.raw.values():
                body = f[3] if isinstance(f[3], list) else f[3].split("\n")
                for line in body:
                    if not pat.search(line):
                        continue
                    s = loc_re.sub("", line).strip()
                    for m in pat.finditer(s):
                        pre = s[:m.start()].rstrip()
                        if pre.endswith("&") or " = " in s[m.end():] or s[m.start() - 1:m.start()] == "\"" or "asm" in s:
                            if m.group(1) in ext:
                                bad.add(m.group(1))
                            for x in short.get(m.group(1), ()):
                                bad.add((n, x))
        self._unwritten = set(x for x in ext if x not in bad and x not in refd) | \
            set((n, x) for n, d in loc.items() for x in d if (n, x) not in bad and x not in refd)
        return self._unwritten

    def data(self, name, unit):
        a = self.asm.get(unit)
        if a:
            o = a["objs"].get(name)
            if o is not None:
                return o
            al = a["aliases"].get(name)
            if al and al in a["objs"]:
                return a["objs"][al]
            c = [o for k, o in a["objs"].items() if k.rsplit(".", 1)[0] == name and k.rsplit(".", 1)[-1].isdigit()]
            if len(c) == 1:
                return c[0]
            if c and len(set(bytes(x.bytes) for x in c)) == 1:
                return c[0]
            if c:
                return None
        o = self.gdata.get(name)
        if o is None and name in self.alias:
            o = self.gdata.get(self.alias[name])
        return o


class Frame:
    __slots__ = ("f", "unit", "env", "block", "idx", "prev", "ret", "iters", "und", "hav", "locals", "args", "loc", "va")

    def __init__(self, f):
        self.f, self.unit = f, f.unit
        self.env = {}
        self.block, self.idx, self.prev = f.entry, 0, None
        self.ret = None
        self.iters, self.und, self.hav = {}, {}, {}
        self.locals = {}
        self.loc = f.loc
        self.va = None

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.unit, n.block, n.idx, n.prev, n.ret = self.f, self.unit, self.block, self.idx, self.prev, self.ret
        n.env = dict(self.env)
        n.iters, n.und, n.hav = dict(self.iters), dict(self.und), dict(self.hav)
        n.locals = dict(self.locals)
        n.loc = self.loc
        n.va = self.va
        return n


class State:
    __slots__ = ("frames", "val", "q", "defs", "mem", "errno", "errno_log", "fe_may", "fe_must", "glb_may", "glb_must",
                 "level", "events", "trace", "facts", "out", "mode_log", "dead_reason", "memo", "srcs", "stamp", "ver", "last")

    def __init__(self):
        self.frames, self.val, self.q, self.defs, self.mem = [], {}, {}, {}, {}
        self.errno = None           # None: untouched
        self.fe_may = self.fe_must = 0
        self.glb_may = self.glb_must = 0
        self.level = 0
        self.events, self.trace = (), ()
        self.facts = {}
        self.out = ""
        self.memo = {}
        # dependence of computed values on the inputs (see Interp.depq)
        self.srcs, self.stamp, self.ver, self.last = {}, {}, {}, {}

    def copy(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.val, n.q, n.defs = dict(self.val), dict(self.q), dict(self.defs)
        n.mem = {k: dict(v) for k, v in self.mem.items()}
        n.errno = self.errno
        n.fe_may, n.fe_must, n.glb_may, n.glb_must = self.fe_may, self.fe_must, self.glb_may, self.glb_must
        n.level, n.events, n.trace = self.level, self.events, self.trace
        n.facts = dict(self.facts)
        n.out = self.out
        n.memo = dict(self.memo)
        n.srcs, n.stamp, n.ver, n.last = dict(self.srcs), self.stamp, dict(self.ver), dict(self.last)
        return n


class Outcome:
    __slots__ = ("ret", "st", "kind", "level")

    def __init__(self, ret, st, kind="return"):
        self.ret, self.st, self.kind, self.level = ret, st, kind, st.level

    def value(self):
        return self.st.val.get(self.ret) if self.ret is not None else None


def loops_of(f):
    r = f._an.get("loops")
    if r is not None:
        return r
    succ = {}
    for b, ss in f.blocks.items():
        t = []
        for s in ss:
            if s[0] == "goto":
                t.append(s[1])
            elif s[0] == "if":
                t += [s[2], s[3]]
            elif s[0] == "switch":
                t.append(s[2])
                t += [x[2] for x in s[3]]
        succ[b] = t
    # back edges by DFS
    color, back = {}, []
    stack = [(f.entry, iter(succ.get(f.entry, ())))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for n in it:
            c = color.get(n, 0)
            if c == 0:
                color[n] = 1
                stack.append((n, iter(succ.get(n, ()))))
                break
            if c == 1:
                back.append((b, n))
        else:
            color[b] = 2
            stack.pop()
    pred = {}
    for b, t in succ.items():
        for x in t:
            pred.setdefault(x, []).append(b)
    loops = {}
    for s, h in back:
        body = loops.setdefault(h, {h})
        w = [s]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w += pred.get(x, [])
    inloop = {}
    for h, body in loops.items():
        for b in body:
            inloop.setdefault(b, []).append(h)
    r = (loops, inloop, set(back), succ)
    f._an["loops"] = r
    return r


class Interp:
    MAXPATHS = 3000
    MAXSTEPS = 400000
    UNROLL = 3
    MAXITER = 6000
    DEPTH = 24
    TIME = 20.0

    def __init__(self, prog, models=None):
        self.p = prog
        self.models = models or {}
        self.objs = {}
        self.nobj = 0
        self.nvid = 0
        self.inputs = set()
        self.gobj = {}
        self.strs = {}
        self.steps = 0
        self.stats = {"calls": set(), "externs": set(), "branches": 0, "forks": 0, "sites": 0}
        self.noinline = set()
        self.watch = set()
        self.track_uninit = True
        self.trace_calls = False
        self.defects = {}

    # ---------------------------------------------------------------- values
    def new(self, st, v, q=0, d=None):
        self.nvid += 1
        st.val[self.nvid] = v
        if q:
            st.q[self.nvid] = q
        if d is not None:
            st.defs[self.nvid] = d
        return self.nvid

    def top(self, st, t, q=2):
        return self.new(st, self.topval(t), q)

    def topval(self, t):
        k = t[0]
        if k == "int":
            return itop(t[1], t[2])
        if k == "bool":
            return iv(8, False, 0, 1)
        if k == "dec":
            return dtop(t[1])
        if k == "flt":
            return FV(t[1])
        if k == "ptr":
            return PV(None)
        return Top(t)

    def conv(self, st, vid, t):
        """value of vid seen at type t, for parameter passing and constants."""
        return vid

    # ---------------------------------------------------------------- objects
    def newobj(self, name, t, size, kind, **kw):
        self.nobj += 1
        o = Obj(self.nobj, name, t, size, kind, **kw)
        self.objs[o.id] = o
        return o

    def global_obj(self, name, unit):
        d = self.p.data(name, unit)
        key = (name if d is None or d.glob else (d.unit, d.name))
        o = self.gobj.get(key)
        if o is None:
            u = d.unit if d is not None else unit
            t = None
            if d is not None:
                t = self.p.tdb[u].var(name)
            if t is None or T.size(t) == 0 or t[0] == "void":
                t2 = self.p.tdb[unit].var(name)
                t = t2 or t or ("void",)
            if d is not None and t[0] == "arr" and T.size(t) == 0 and T.size(t[1]):
                t = ("arr", t[1], d.size // T.size(t[1]))
            o = self.newobj(name, t, d.size if d is not None else None, "global", data=d, unit=u,
                            const=d is not None and (not d.writable or (name if d.glob else (d.unit, d.name)) in self.p.unwritten()))
            self.gobj[key] = o
        return o

    def str_obj(self, lit, wide=False):
        o = self.strs.get(lit)
        if o is None:
            from .asmdata import unescape
            import re
            s = lit
            s = re.sub(r'"\s*"', "", s) if not s.startswith('""') else s
            body = s[1:-1]
            body = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: "\\%03o" % int(m.group(1), 16), body)
            b = unescape(body) + b"\0"
            o = self.newobj(lit, ("arr", ("int", 8, True), len(b)), len(b), "str", data=b, const=True)
            self.strs[lit] = o
        return o

    # ---------------------------------------------------------------- memory
    def init_read(self, st, o, off, size, t):
        """initial contents of a never-written location"""
        d = o.data
        if o.kind in ("global", "str") and d is not None and (o.const or o.kind == "str" or o.extra == "init"):
            raw = d if isinstance(d, (bytes, bytearray)) else d.bytes
            if off < 0 or off + size > len(raw):
                if isinstance(d, (bytes, bytearray)) or off + size > (o.size or 0):
                    return self.topval(t)
                raw = bytes(raw) + bytes(o.size - len(raw))
            if not isinstance(d, (bytes, bytearray)):
                r = d.relocs.get(off)
                if r is not None and size == 8:
                    return self.symval(r[0], r[1], o.unit)
            v = int.from_bytes(raw[off:off + size], "little")
            return self.frombits(v, size, t)
        if o.kind == "local" and self.track_uninit:
            return UNINIT
        return self.topval(t)

    def symval(self, name, add, unit):
        if name.startswith(".L"):
            do = self.p.asm[unit]["objs"].get(name)
            if do is not None:
                key = (unit, name)
                o = self.gobj.get(key)
                if o is None:
                    o = self.newobj(name, ("arr", ("int", 8, True), do.size), do.size, "global", data=do, unit=unit, const=True)
                    self.gobj[key] = o
                return PV(o.id, add)
            return PV(None)
        if self.p.find(name, unit) is not None:
            return FnV(name)
        o = self.global_obj(name, unit)
        return PV(o.id, add)

    def frombits(self, v, size, t):
        if t[0] == "int" and t[1] == size * 8:
            return ic(t[1], t[2], v)
        if t[0] == "bool":
            return ic(8, False, v & 1)
        if t[0] == "dec":
            w = size * 8
            return bid_class([((1 << w) - 1, v)], w)
        if t[0] == "ptr":
            return ic(64, False, v) if v == 0 else PV(None)
        if t[0] == "flt" and t[1] in (32, 64):
            import struct
            f = struct.unpack("<d" if t[1] == 64 else "<f", v.to_bytes(size, "little"))[0]
            return FV(t[1], f, f)
        return Top(t)

    def mem_of(self, st, oid):
        m = st.mem.get(oid)
        if m is None:
            m = st.mem[oid] = {}
        return m

    def read(self, st, oid, off, size, t):
        """-> vid"""
        o = self.objs.get(oid)
        if o is None:
            return self.top(st, t)
        if isinstance(off, IV):
            if off.single:
                off = off.lo
            else:
                return self.read_range(st, o, off, size, t)
        if o.size is not None and (off < 0 or off + size > o.size) and o.kind != "opaque":
            self.event(st, "oob", (o.name, off, size, o.size, "read"))
            return self.top(st, t)
        m = st.mem.get(oid)
        if m is None:
            c = None
        else:
            c = m.get(off)
        if c is not None and c[0] == size:
            return self.retype(st, c[1], t, size)
        if m:
            # overlapping cells?
            for o2, c2 in m.items():
                if o2 == "smear":
                    continue
                s2 = c2[0]
                if o2 < off + size and off < o2 + s2:
                    return self.read_over(st, o, m, off, size, t)
            if "smear" in m:
                return self.top(st, t)
        v = self.init_read(st, o, off, size, t)
        if v is UNINIT:
            self.event(st, "uninit", (o.name, off))
            return self.top(st, t, 2)
        vid = self.new(st, v, 0 if o.const or o.extra == "init" else 1 if o.kind == "opaque" else 2)
        if not o.const:
            self.mem_of(st, oid)[off] = (size, vid)
        return vid

    def read_over(self, st, o, m, off, size, t):
        # inside a decNumber overlay
        for o2, c in m.items():
            if o2 == "smear":
                continue
            s2, v2 = c
            if o2 <= off and off + size <= o2 + s2:
                dv = st.val[v2]
                if isinstance(dv, DV) and dv.w == 0:
                    return self.dn_field(st, v2, off - o2, size, t)
        # assemble bits
        w = size * 8
        msk, val = 0, 0
        parts = []
        full_prov = None
        covered = 0
        for o2 in sorted(k for k in m if k != "smear"):
            s2, v2 = m[o2]
            if not (o2 < off + size and off < o2 + s2):
                continue
            b = self.bits(st, v2, s2)
            if b is None:
                return self.top(st, t)
            lo = max(off, o2)
            hi = min(off + size, o2 + s2)
            piece = b
            if lo > o2 or hi < o2 + s2:
                piece = icast(ibin(">>", b, ic(32, False, 8 * (lo - o2)), b.w, False), 8 * (hi - lo), False)
            if b.prov is not None and lo == o2 + (lo - o2):
                pv = (b.prov[0], b.prov[1] + 8 * (lo - o2))
            else:
                pv = None
            parts.append((lo - off, hi - lo, piece, pv))
            covered += hi - lo
        if covered < size:
            if "smear" in m or o.kind != "local" or not self.track_uninit:
                # fill the holes
                have = [False] * size
                for a, n, _, _ in parts:
                    for i in range(a, a + n):
                        have[i] = True
                for i in range(size):
                    if not have[i]:
                        v = itop(8, False) if "smear" in m else self.init_read(st, o, off + i, 1, ("int", 8, False))
                        if not isinstance(v, IV):
                            return self.top(st, t)
                        parts.append((i, 1, v, None))
            else:
                # padding / partially written object
                return self.top(st, t)
        dj = [(0, 0)]
        q = 0
        for a, n, piece, pv in parts:
            nd = set()
            for m0, v0 in dj:
                for m1, v1 in piece.dj:
                    nd.add((m0 | (m1 << (8 * a)), v0 | (v1 << (8 * a))))
            dj = list(nd)
            if len(dj) > 64:
                x, y = dj[0]
                for m2, v2 in dj[1:]:
                    x = x & m2 & ~(y ^ v2)
                    y &= x
                dj = [(x, y)]
        # provenance
        prov = None
        if parts and all(p[3] is not None for p in parts):
            roots = set()
            for a, n, piece, pv in parts:
                r = self.root(st, pv[0])
                roots.add((r, pv[1] - 8 * a))
            if len(roots) == 1 and list(roots)[0][1] >= 0:
                top = max(parts, key=lambda p: p[0])
                prov = (top[3][0], list(roots)[0][1])
        lo = hi = None
        if parts and all(p[2].lo >= 0 for p in parts):
            lo = sum(p[2].lo << (8 * p[0]) for p in parts)
            hi = sum(p[2].hi << (8 * p[0]) for p in parts)
        r = iv(w, False, lo, hi, tuple(dj), prov)
        if r is None:
            return self.top(st, t)
        if prov is not None and w == 64:
            r = self.encmask(st, r, (1 << 64) - 1, r)
        q = max([st.q.get(m[k][1], 0) for k in m if k != "smear"] or [0])
        for o2 in m:
            if o2 != "smear" and o2 < off + size and off < o2 + m[o2][0]:
                q = max(q, self.encq(st, m[o2][1]))
        return self.retype(st, self.new(st, r, q), t, size)

    def encq(self, st, vid):
        """how real are the encodings assumed for a decimal value: all of them for an operand, one unknown for a result"""
        v = st.val[vid]
        if not isinstance(v, DV) or not v.w or all(a.rep is not None or a.kind not in ("fin", "zero") or exact_coef(a) for a in v.atoms):
            return 0
        for _ in range(8):
            if vid in self.inputs:
                return 0
            d = st.defs.get(vid)
            if d is None or d[0] not in ("sgn", "dncopy"):
                break
            vid = d[2] if d[0] == "sgn" else d[1]
        return 2

    def root(self, st, vid):
        while True:
            d = st.defs.get(vid)
            if d is not None and d[0] == "sgn":
                vid = d[2]
            else:
                return vid

    def read_range(self, st, o, off, size, t):
        if o.const and o.data is not None and o.kind in ("global", "str"):
            lo, hi = off.lo, off.hi
            lim = (o.size or 0) - size
            if lo > lim or hi < 0:
                self.event(st, "oob", (o.name, repr(off), size, o.size, "read"))
                return self.top(st, t)
            if lo < 0 or hi > lim:
                self.event(st, "oob?", (o.name, repr(off), size, o.size, "read"))
            lo, hi = max(lo, 0), min(hi, lim)
            step = 1
            if size > 1:
                step = size
                lo0 = -(-lo // 1)
            offs = [x for x in range(lo, hi + 1) if icmp("==", off, ic(off.w, off.sg, x)) is not False]
            # alignment: offsets are produced by multiplication; keep those congruent to lo
            al = off_align(off)
            if al > 1:
                offs = [x for x in offs if x % al == lo % al or True and x % al == 0]
            if len(offs) <= 4096 and offs:
                acc = None
                for x in offs:
                    v = self.init_read(st, o, x, size, t)
                    if isinstance(v, IV):
                        acc = v if acc is None else ijoin(acc, v)
                    elif isinstance(v, DV):
                        acc = v if acc is None else dmerge(v.w, acc.atoms + v.atoms)
                    else:
                        return self.top(st, t)
                return self.new(st, acc, 2)
            return self.top(st, t)
        if o.size is not None and o.kind != "opaque":
            if off.lo > o.size - size or off.hi < 0:
                self.event(st, "oob", (o.name, repr(off), size, o.size, "read"))
            elif off.lo < 0 or off.hi > o.size - size:
                self.event(st, "oob?", (o.name, repr(off), size, o.size, "read"))
        # join of the matching cells when the object is fully initialised
        m = st.mem.get(o.id)
        return self.top(st, t)

    def retype(self, st, vid, t, size):
        """cell value read at type t of the same size"""
        v = st.val[vid]
        k = t[0]
        if isinstance(v, IV):
            if k == "int":
                if v.w == t[1] and v.sg == t[2]:
                    return vid
                if v.w == t[1]:
                    return self.new(st, icast(v, t[1], t[2]), st.q.get(vid, 0), ("cast", vid))
            if k == "bool":
                return vid
            if k == "dec":
                w = t[1]
                if v.prov is not None and v.prov[1] == 0 and v.w == w:
                    src = st.val.get(v.prov[0])
                    if isinstance(src, DV) and src.w == w:
                        return v.prov[0]
                u = icast(v, w, False)
                return self.new(st, bid_class(u.dj, w, u.lo, u.hi), st.q.get(vid, 0))
            if k == "ptr":
                return vid if v.single else self.new(st, PV(None), 2)
            if k == "flt":
                return self.new(st, int2fbits(v, t[1]), st.q.get(vid, 0))
        if isinstance(v, DV):
            if k == "dec":
                return vid
            if k == "int":
                b = self.bits(st, vid, size)
                return self.new(st, self.withprov(icast(b, t[1], t[2]), b.prov), max(st.q.get(vid, 0), self.encq(st, vid)))
            if k == "rec":
                return vid
        if isinstance(v, FV):
            if k == "flt":
                return vid
            if k == "int":
                b = self.bits(st, vid, size)
                if b is None:
                    return self.top(st, t)
                return self.new(st, icast(b, t[1], t[2]), st.q.get(vid, 0))
        if isinstance(v, (PV, FnV)):
            if k in ("ptr",):
                return vid
            return self.top(st, t)
        if isinstance(v, Top):
            return self.top(st, t)
        return vid

    def withprov(self, v, prov):
        if v is not None and prov is not None:
            return IV(v.w, v.sg, v.lo, v.hi, v.dj, prov)
        return v

    def bits(self, st, vid, size):
        """unsigned IV of the bytes of a cell"""
        v = st.val[vid]
        if isinstance(v, IV):
            return self.withprov(icast(v, size * 8, False), v.prov if v.prov and v.w == size * 8 else None)
        if isinstance(v, DV):
            if v.w == 0 or v.w != size * 8:
                return None
            if len(v.atoms) > 1:
                raise NeedSplit(vid)
            r = iv(v.w, False, None, None, tuple(bid_bits(v.atoms[0], v.w)), (vid, 0))
            a = v.atoms[0]
            if v.w < 128 and isinstance(a.enc, tuple):
                r = self.encmask(st, r, (1 << v.w) - 1, r)
            elif isinstance(a.enc, tuple) and a.rep is None and a.kind == "fin":
                h = a.sign << 127 | (a.enc[2] - FMT[128].etiny) << 113
                r = self.withprov(iv(128, False, h + a.enc[0], h + a.enc[1], r.dj) or r, r.prov)
            return r
        if isinstance(v, FV):
            return f2bits(v)
        return None

    def write(self, st, oid, off, size, vid):
        o = self.objs.get(oid)
        if o is None:
            self.smear_all(st)
            return
        if isinstance(off, IV) and off.single:
            off = off.lo
        if isinstance(off, IV):
            if o.size is not None and o.kind != "opaque":
                if off.lo > o.size - size or off.hi < 0:
                    self.event(st, "oob", (o.name, repr(off), size, o.size, "write"))
                elif off.lo < 0 or off.hi > o.size - size:
                    self.event(st, "oob?", (o.name, repr(off), size, o.size, "write"))
            m = self.mem_of(st, oid)
            for k in [k for k, c in m.items() if k != "smear" and k <= off.hi + size and k + c[0] > off.lo]:
                del m[k]
            m["smear"] = True
            return
        if o.size is not None and (off < 0 or off + size > o.size) and o.kind != "opaque":
            self.event(st, "oob", (o.name, off, size, o.size, "write"))
            return
        if o.const:
            self.event(st, "constwrite", (o.name, off))
        m = self.mem_of(st, oid)
        c = m.get(off)
        if c is None or c[0] != size:
            ov = [k for k, c in m.items() if k != "smear" and k < off + size and off < k + c[0]]
            for k in ov:
                s2, v2 = m[k]
                dv = st.val[v2]
                if isinstance(dv, DV) and dv.w == 0 and k <= off and off + size <= k + s2:
                    self.dn_write(st, m, k, s2, v2, off - k, size, vid)
                    return
                if k < off or k + s2 > off + size:
                    b = self.bits(st, v2, s2)
                    del m[k]
                    if b is not None:
                        if k < off:
                            n = off - k
                            m[k] = (n, self.new(st, self.withprov(icast(b, n * 8, False), b.prov), st.q.get(v2, 0)))
                        if k + s2 > off + size:
                            n = k + s2 - off - size
                            sh = 8 * (off + size - k)
                            r = icast(ibin(">>", b, ic(32, False, sh), b.w, False), n * 8, False)
                            m[off + size] = (n, self.new(st, self.withprov(r, (b.prov[0], b.prov[1] + sh) if b.prov else None),
                                                         st.q.get(v2, 0)))
                    else:
                        m["smear"] = True
                else:
                    del m[k]
        m[off] = (size, vid)

    def smear_all(self, st):
        for oid in list(st.mem):
            o = self.objs[oid]
            if o.const or o.extra == "init":
                continue
            m = st.mem[oid]
            m.clear()
            m["smear"] = True
        st.level = max(st.level, st.level)
        self.event(st, "wildwrite", ())

    def havoc_obj(self, st, oid, lo=None):
        o = self.objs.get(oid)
        if o is None or o.const:
            return
        m = self.mem_of(st, oid)
        m.clear()
        m["smear"] = True

    # ------------------------------------------------------------ decNumber overlay
    def dn_field(self, st, vid, off, size, t):
        dv = st.val[vid]
        if len(dv.atoms) > 1:
            raise NeedSplit(vid)
        a = dv.atoms[0]
        q = st.q.get(vid, 0)
        if off == 8 and size == 1:
            b = (0x80 if a.sign else 0) | {"inf": 0x40, "qnan": 0x20, "snan": 0x10}.get(a.kind, 0)
            return self.new(st, ic(8, t[2] if t[0] == "int" else False, b), 0, ("dnbits", vid))
        if off == 0 and size == 4:
            if a.kind in ("zero", "inf"):
                r = ic(32, True, 1)
            elif a.kind == "fin":
                if a.rep is not None:
                    r = ic(32, True, len(str(a.rep[0])))
                elif isinstance(a.enc, tuple):
                    r = iv(32, True, len(str(a.enc[0])), len(str(a.enc[1])))
                else:
                    lo = 1
                    if st.facts.get(("lsu0", vid)) == 0:
                        lo = 4
                    hi = 34 if a.lo.adjusted() < 40 or True else 34
                    r = iv(32, True, lo, max(hi, lo))
            else:
                r = iv(32, True, 1, 34)
            return self.new(st, r, q if r.single else max(q, 1), ("dndig", vid))
        if off == 4 and size == 4:
            if a.kind == "inf":
                return self.new(st, ic(32, True, 0))
            if a.rep is not None:
                r = ic(32, True, a.rep[1])
            elif isinstance(a.enc, tuple):
                r = ic(32, True, a.enc[2])
            elif a.kind == "fin" and abs(a.lo.adjusted()) < 10 ** 8 and abs(a.hi.adjusted()) < 10 ** 8:
                r = iv(32, True, a.lo.adjusted() - 33, a.hi.adjusted())
                if st.facts.get(("exp", vid)):
                    r = st.facts[("exp", vid)]
            else:
                r = itop(32, True)
            return self.new(st, r, q if r.single else max(q, 1), ("dnexp", vid))
        if off == 10 and size == 2:
            if a.kind in ("zero", "inf"):
                return self.new(st, ic(16, False, 0))
            if a.kind == "fin" and a.rep is not None:
                return self.new(st, ic(16, False, a.rep[0] % 1000))
            if a.kind == "fin" and isinstance(a.enc, tuple) and a.enc[0] // 1000 == a.enc[1] // 1000:
                return self.new(st, iv(16, False, a.enc[0] % 1000, a.enc[1] % 1000), max(q, 1), ("dnlsu", vid))
            return self.new(st, iv(16, False, 0, 999), max(q, 1), ("dnlsu", vid))
        if t[0] == "rec":
            return vid
        return self.top(st, t, max(q, 1))

    def dn_write(self, st, m, base, s2, v2, off, size, vid):
        dv = st.val[v2]
        v = st.val[vid]
        if off == 8 and size == 1 and isinstance(v, IV) and v.single and len(dv.atoms) == 1:
            a = dv.atoms[0]
            b = v.lo & 0xff
            s = b >> 7
            kind = "inf" if b & 0x40 else "qnan" if b & 0x20 else "snan" if b & 0x10 else None
            if kind:
                m[base] = (s2, self.new(st, DV(0, [A(kind, s)])))
            elif a.kind in ("fin", "zero"):
                m[base] = (s2, self.new(st, DV(0, [a._replace(sign=s)]), st.q.get(v2, 0),
                                        ("sgn", "neg", v2) if s != a.sign else ("sgn", "id", v2)))
            else:
                m[base] = (s2, self.new(st, DV(0, [fin(s, TINY, HUGE), A("zero", s)]), 2))
            return
        if off == 4 and size == 4 and len(dv.atoms) == 1:
            a = dv.atoms[0]
            if a.kind in ("zero",):
                e = v.lo if isinstance(v, IV) and v.single else None
                m[base] = (s2, self.new(st, DV(0, [a._replace(rep=(0, e) if e is not None else None)]), st.q.get(v2, 0)))
                return
            if a.kind == "fin":
                if a.rep is not None and isinstance(v, IV) and v.single:
                    x = D(a.rep[0]).scaleb(v.lo)
                    m[base] = (s2, self.new(st, DV(0, [fin(a.sign, x, x, None, (a.rep[0], v.lo))]), st.q.get(v2, 0)))
                    return
                if isinstance(a.enc, tuple) and isinstance(v, IV) and v.single:
                    c1, c2, _ = a.enc
                    m[base] = (s2, self.new(st, DV(0, [fin(a.sign, D(c1).scaleb(v.lo), D(c2).scaleb(v.lo))._replace(enc=(c1, c2, v.lo))]), st.q.get(v2, 0)))
                    return
                d = st.defs.get(vid)
                if d and d[0] == "addc":
                    d0 = st.defs.get(d[1])
                    if d0 and d0[0] == "dnexp" and self.root(st, d0[1]) == self.root(st, v2):
                        k = d[2]
                        m[base] = (s2, self.new(st, DV(0, [fin(a.sign, a.lo.scaleb(k), a.hi.scaleb(k))]), st.q.get(v2, 0)))
                        return
                if isinstance(v, IV):
                    # coefficient unknown: 1..10^34
                    lo = D(1).scaleb(max(v.lo, -10 ** 9))
                    hi = D(1).scaleb(min(v.hi, 10 ** 9) + 34)
                    nv = self.new(st, DV(0, [fin(a.sign, lo, hi)]), 2)
                    st.facts[("exp", nv)] = v
                    m[base] = (s2, nv)
                    return
        # the number of digits, then the only unit
        if (off, size) in ((0, 4), (10, 2)) and len(dv.atoms) == 1 and isinstance(v, IV) and v.single:
            a = dv.atoms[0]
            rep = a.rep
            if a.kind == "zero" and rep is not None:
                rep = (0, rep[1])
            if a.kind in ("fin", "zero") and rep is not None:
                c = None
                if off == 0 and 1 <= v.lo <= 3:
                    c = rep[0] % 1000
                elif off == 10 and (rep[0] < 1000 or st.facts.get(("dign", v2))):
                    c = v.lo
                if c is not None:
                    x = D(c).scaleb(rep[1])
                    n = A("zero", a.sign)._replace(rep=(0, rep[1])) if c == 0 else fin(a.sign, x, x, None, (c, rep[1]))
                    nv = self.new(st, DV(0, [n]), st.q.get(v2, 0))
                    st.facts[("dign", nv)] = 1
                    m[base] = (s2, nv)
                    return
        # anything else: number of unknown value
        m[base] = (s2, self.new(st, DV(0, [fin(0, TINY, HUGE), fin(1, TINY, HUGE), A("zero", 0), A("zero", 1)]), 2))

    def dn_get(self, st, pvid):
        """DV vid of the decNumber a pointer designates"""
        p = st.val[pvid]
        if not isinstance(p, PV) or p.obj is None or not isinstance(p.off, int):
            return self.new(st, dtop(0), 2)
        m = st.mem.get(p.obj) or {}
        c = m.get(p.off)
        if c is not None and isinstance(st.val[c[1]], DV) and st.val[c[1]].w == 0:
            return c[1]
        # built field by field?
        o = self.objs[p.obj]
        if p.off in m and p.off + 8 in m:
            bits = st.val[m[p.off + 8][1]]
            dig = st.val[m[p.off][1]]
            ex = st.val[m[p.off + 4][1]] if p.off + 4 in m else None
            if isinstance(bits, IV) and bits.single:
                b = bits.lo & 0xff
                s = b >> 7
                if b & 0x40:
                    return self.new(st, DV(0, [A("inf", s)]))
                if b & 0x30:
                    return self.new(st, DV(0, [A("qnan" if b & 0x20 else "snan", s)]))
                l = m.get(p.off + 10)
                lv = st.val[l[1]] if l else None
                if isinstance(dig, IV) and dig.single and dig.lo <= 3 and isinstance(lv, IV) and lv.single:
                    if lv.lo == 0:
                        return self.new(st, DV(0, [A("zero", s)]))
                    if isinstance(ex, IV) and ex.single:
                        x = D(lv.lo).scaleb(ex.lo)
                        return self.new(st, DV(0, [fin(s, x, x, None, (lv.lo, ex.lo))]))
                return self.new(st, DV(0, [fin(s, TINY, HUGE), A("zero", s)]), 2)
        if o.kind == "global" and o.data is not None:
            u = o.data.bytes
            if o.const or not o.data.writable:
                return self.new(st, dn_from_bytes(u, p.off), 0)
            return self.new(st, dn_from_bytes(u, p.off), 0)
        if o.kind == "local" and not m and self.track_uninit:
            self.event(st, "uninit", (o.name, p.off))
        return self.new(st, dtop(0), 2)

    def dn_put(self, st, pvid, dvid):
        p = st.val[pvid]
        if not isinstance(p, PV) or p.obj is None:
            self.smear_all(st)
            return
        if not isinstance(p.off, int):
            self.havoc_obj(st, p.obj)
            return
        o = self.objs[p.obj]
        size = (o.size if o.size is not None else 64) - p.off
        t = o.t
        if t[0] == "arr" and t[1][0] == "rec":
            es = T.size(t[1])
            if es and p.off % es == 0 and self.isdn(t[1]) and p.off + es <= (o.size or 0) and st.facts.get("dnarr"):
                size = es
        m = self.mem_of(st, p.obj)
        for k in [k for k, c in m.items() if k != "smear" and p.off <= k < p.off + size]:
            del m[k]
        m[p.off] = (size, dvid)

    def isdn(self, t):
        return t[0] == "rec" and len(t[3]) >= 4 and [f[0] for f in t[3][:3]] == ["digits", "exponent", "bits"]

    # ---------------------------------------------------------------- events
    def event(self, st, kind, data):
        fr = st.frames[-1] if st.frames else None
        loc = fr.loc if fr else None
        st.events = st.events + ((kind, data, loc, fr.f.name if fr else "?", st.level),)
        if kind in UNDEF:
            k = (kind, fr.f.name if fr else "?", loc)
            if k not in self.defects or self.defects[k][0] > st.level:
                self.defects[k] = (st.level, data)

    # ---------------------------------------------------------------- typing
    def ssat(self, fr, name):
        c = fr.f._an.setdefault("ssat", {})
        t = c.get(name)
        if t is None:
            d = fr.f.decls
            if name in d:
                txt = d[name]
            else:
                b = name.rsplit("_", 1)[0]
                txt = d.get(b)
                if txt is None:
                    txt = dict(fr.f.params).get(b, "void")
            t = self.p.tdb[fr.unit].named(txt)
            c[name] = t
        return t

    def vart(self, fr, name):
        c = fr.f._an.setdefault("vart", {})
        t = c.get(name)
        if t is None:
            txt = fr.f.decls.get(name)
            if txt is None:
                txt = dict(fr.f.params).get(name, "void")
            t = self.p.tdb[fr.unit].named(txt)
            c[name] = t
        return t

    def named(self, fr, txt):
        return self.p.tdb[fr.unit].named(txt)

    def typeof(self, st, fr, e):
        k = e[0]
        if k in ("ssa", "ssad"):
            return self.ssat(fr, e[1])
        if k == "var":
            return self.vart(fr, e[1])
        if k == "glob":
            return self.global_obj(e[1], fr.unit).t
        if k in ("cast", "lit", "mem", "vce", "bfr"):
            return self.named(fr, e[1])
        if k == "const":
            t = {"": ("int", 32, True), "u": ("int", 32, False), "l": ("int", 64, True), "ul": ("int", 64, False),
                 "ll": ("int", 64, True), "ull": ("int", 64, False)}.get(e[2], ("int", 32, True))
            # the dump gives 128-bit constants the suffixes of shorter types
            while not rng(t[1], t[2])[0] <= e[1] <= rng(t[1], t[2])[1] and t[1] < 128:
                t = ("int", t[1] * 2, t[2])
            return t
        if k == "addr":
            return ("ptr", self.typeof(st, fr, e[1]))
        if k == "str":
            return ("arr", ("int", 8, True), len(e[1]))
        if k == "un":
            return self.typeof(st, fr, e[2])
        if k == "bin":
            return self.typeof(st, fr, e[2])
        if k == "flt":
            return ("flt", 64)
        if k in ("comp", "arrow", "idx", "deref"):
            return self.lval(st, fr, e)[2]
        return ("void",)

    # ---------------------------------------------------------------- lvalues
    def local(self, st, fr, name):
        oid = fr.locals.get(name)
        if oid is None:
            t = self.vart(fr, name)
            o = self.newobj(name, t, T.size(t) or None, "local", unit=fr.unit)
            oid = o.id
            fr.locals[name] = oid
        return oid

    def field(self, t, name):
        for f in t[3]:
            if f[0] == name:
                return f
            if f[0] is None and f[2][0] == "rec":
                r = self.field(f[2], name)
                if r is not None:
                    return (r[0], r[1] + f[1], r[2], r[3], r[4])
        return None

    def addoff(self, off, k):
        if isinstance(off, int) and isinstance(k, int):
            return off + k
        a = off if isinstance(off, IV) else ic(64, True, off)
        b = k if isinstance(k, IV) else ic(64, True, k)
        r = ibin("+", icast(a, 64, True), icast(b, 64, True), 64, True)
        return r.lo if r.single else r

    def lval(self, st, fr, e):
        """-> (oid|None, offset int|IV, type, (bitpos, bitsize)|None)"""
        k = e[0]
        if k == "var":
            return (self.local(st, fr, e[1]), 0, self.vart(fr, e[1]), None)
        if k == "glob":
            o = self.global_obj(e[1], fr.unit)
            return (o.id, 0, o.t, None)
        if k == "str":
            o = self.str_obj(e[1])
            return (o.id, 0, o.t, None)
        if k == "comp":
            oid, off, t, _ = self.lval(st, fr, e[1])
            f = self.field(t, e[2]) if t[0] == "rec" else None
            if f is None:
                raise Giveup("field %s of %s" % (e[2], t[:2]))
            if f[3] is not None:
                return (oid, off, f[2], (f[3], f[4]))
            return (oid, self.addoff(off, f[1]), f[2], None)
        if k == "arrow":
            pt = self.typeof(st, fr, e[1])
            t = T.target(pt)
            p = self.ptr(st, self.ev(st, fr, e[1]))
            f = self.field(t, e[2]) if t[0] == "rec" else None
            if f is None:
                raise Giveup("field %s" % (e[2],))
            if p.obj is None:
                return (None, 0, f[2], None if f[3] is None else (f[3], f[4]))
            if f[3] is not None:
                return (p.obj, p.off, f[2], (f[3], f[4]))
            return (p.obj, self.addoff(p.off, f[1]), f[2], None)
        if k == "idx":
            oid, off, t, _ = self.lval(st, fr, e[1])
            if t[0] != "arr":
                raise Giveup("index of non-array %r in %s" % (e, fr.f.name))
            et = t[1]
            iv_ = st.val[self.ev(st, fr, e[2])]
            es = T.size(et)
            if isinstance(iv_, IV):
                # array bound of this dimension
                if t[2] is not None and t[2] > 0 and oid is not None and not (isinstance(off, IV)):
                    if iv_.lo >= t[2] or iv_.hi < 0:
                        self.event(st, "oob", (self.objs[oid].name, repr(iv_), 1, t[2], "index"))
                    elif iv_.lo < 0 or iv_.hi >= t[2]:
                        self.event(st, "oob?", (self.objs[oid].name, repr(iv_), 1, t[2], "index"))
                        cl = iv(iv_.w, iv_.sg, 0, t[2] - 1, iv_.dj)
                        if cl is not None:
                            iv_ = cl
                if iv_.single:
                    return (oid, self.addoff(off, iv_.lo * es), et, None)
                k64 = ibin("*", icast(iv_, 64, True), ic(64, True, es), 64, True)
                return (oid, self.addoff(off, mulalign(k64, iv_, es)), et, None)
            return (oid, itop(64, True), et, None)
        if k == "mem":
            t = self.named(fr, e[1])
            p = self.ptr(st, self.ev(st, fr, e[2]))
            if p.obj is None:
                return (None, 0, t, None)
            o = st.val[self.ev(st, fr, e[3])]
            if isinstance(o, IV):
                return (p.obj, self.addoff(p.off, tos(o.lo & (1 << 64) - 1, 64, True) if o.single else o), t, None)
            return (p.obj, itop(64, True), t, None)
        if k == "deref":
            pt = self.typeof(st, fr, e[1])
            p = self.ptr(st, self.ev(st, fr, e[1]))
            return (p.obj, p.off, T.target(pt), None)
        if k == "vce":
            oid, off, t, b = self.lval(st, fr, e[2])
            return (oid, off, self.named(fr, e[1]), b)
        if k == "lit":
            return self.lval(st, fr, e[2])
        raise Giveup("lvalue " + k)

    def ptr(self, st, vid):
        v = st.val[vid]
        if isinstance(v, PV):
            return v
        if isinstance(v, IV) and v.single and v.lo == 0:
            self.event(st, "nullderef", ())
            raise Dead()
        return PV(None)

    def load(self, st, fr, lv):
        oid, off, t, bf = lv
        if oid is None:
            return self.top(st, t)
        if t[0] in ("arr", "rec") and t[0] == "arr":
            return self.new(st, Top(t), 2)
        if bf is not None:
            pos, n = bf
            base = self.addoff(off, (pos // 8))
            nb = (pos % 8 + n + 7) // 8
            if not isinstance(base, int):
                return self.top(st, t)
            w = self.read(st, oid, base, nb, ("int", nb * 8, False))
            v = st.val[w]
            if not isinstance(v, IV):
                return self.top(st, t)
            r = ibin(">>", v, ic(32, False, pos % 8), v.w, False)
            r = icast(icast(r, n, t[2] if t[0] == "int" else False), t[1] if t[0] == "int" else T.size(t) * 8, t[2] if t[0] == "int" else False)
            return self.new(st, r, st.q.get(w, 0))
        return self.read(st, oid, off, T.size(t), t)

    def store(self, st, fr, lv, vid):
        oid, off, t, bf = lv
        if oid is None:
            self.smear_all(st)
            return
        if bf is not None:
            pos, n = bf
            base = self.addoff(off, pos // 8)
            nb = (pos % 8 + n + 7) // 8
            if not isinstance(base, int):
                self.havoc_obj(st, oid)
                return
            tu = self.track_uninit
            self.track_uninit = False
            old = st.val[self.read(st, oid, base, nb, ("int", nb * 8, False))]
            self.track_uninit = tu
            v = st.val[vid]
            if isinstance(old, IV) and isinstance(v, IV):
                mask = ((1 << n) - 1) << (pos % 8)
                w = nb * 8
                keep = ibin("&", old, ic(w, False, ~mask), w, False)
                put = ibin("<<", icast(icast(v, n, False), w, False), ic(32, False, pos % 8), w, False)
                self.write(st, oid, base, nb, self.new(st, ibin("|", keep, put, w, False), st.q.get(vid, 0)))
            else:
                self.write(st, oid, base, nb, self.top(st, ("int", nb * 8, False)))
            return
        o = self.objs[oid]
        if o.extra == "errno":
            st.errno = st.val[vid]
            self.event(st, "errno", (repr(st.val[vid]),))
        self.write(st, oid, off, T.size(t) or 1, vid)

    # ---------------------------------------------------------------- expressions
    def ev(self, st, fr, e, hint=None):
        k = e[0]
        if k == "ssa":
            v = fr.env.get(e[1])
            if v is None:
                return self.top(st, self.ssat(fr, e[1]))
            return v
        if k == "ssad":
            v = fr.env.get(e[1])
            if v is not None:
                return v
            n = e[2]
            # parameter default definition, or an uninitialised local
            v = fr.env.get("P:" + n)
            if v is None:
                self.event(st, "uninit", (n, 0))
                v = self.top(st, self.ssat(fr, e[1]))
            fr.env[e[1]] = v
            return v
        if k == "const":
            if hint is not None and hint[0] == "dec":
                return self.new(st, dconst(hint[1], str(e[1])))
            if hint is not None and hint[0] == "flt":
                return self.new(st, FV(hint[1], float(e[1]), float(e[1])))
            t = self.typeof(st, fr, e) if e[2] else (hint if hint is not None and hint[0] == "int" else ("int", 32, True))
            if hint is not None and hint[0] == "int" and hint[1] == 128:
                t = hint
            if hint is not None and hint[0] == "ptr" and e[1] == 0:
                return self.new(st, ic(64, False, 0))
            if hint is not None and hint[0] == "bool":
                return self.new(st, ic(8, False, e[1]))
            return self.new(st, ic(t[1], t[2], e[1]))
        if k == "flt":
            if hint is not None and hint[0] == "dec":
                return self.new(st, dconst(hint[1], e[1]))
            if hint is not None and hint[0] == "flt":
                try:
                    x = float(e[1].rstrip("lLfFqQ"))
                    return self.new(st, FV(hint[1], x, x) if hint[1] == 64 else FV(hint[1]))
                except ValueError:
                    return self.new(st, FV(hint[1]), 2)
            return self.new(st, Top(("void",)), 2)
        if k == "lit":
            t = self.named(fr, e[1])
            x = e[2]
            if x[0] == "addr" or x[0] == "str":
                return self.ev(st, fr, x)
            if t[0] == "ptr":
                neg = False
                if x[0] == "un":
                    neg, x = True, x[2]
                if x[0] == "const":
                    return self.new(st, ic(64, False, -x[1] if neg else x[1]))
                return self.ev(st, fr, x)
            return self.ev(st, fr, x, t)
        if k == "un":
            if e[2][0] in ("const", "flt"):
                if hint is not None and hint[0] == "dec":
                    s = "-" + (str(e[2][1]))
                    return self.new(st, dconst(hint[1], s))
                if e[2][0] == "const":
                    t = hint if hint is not None and hint[0] == "int" else self.typeof(st, fr, e[2])
                    if e[1] == "-":
                        return self.new(st, ic(t[1], t[2], -e[2][1]))
            a = self.ev(st, fr, e[2], hint)
            return self.unop(st, e[1], a, hint)
        if k == "addr":
            x = e[1]
            if x[0] == "glob" and self.p.find(x[1], fr.unit) is not None and self.p.data(x[1], fr.unit) is None:
                return self.new(st, FnV(x[1]))
            if x[0] == "mem" or x[0] == "deref":
                oid, off, t, _ = self.lval(st, fr, x)
                return self.new(st, PV(oid, off))
            oid, off, t, _ = self.lval(st, fr, x)
            return self.new(st, PV(oid, off))
        if k == "str":
            return self.new(st, PV(self.str_obj(e[1]).id, 0))
        if k == "cast":
            t = self.named(fr, e[1])
            a = self.ev(st, fr, e[2], None if e[2][0] not in ("const", "flt") else t)
            return self.cast(st, a, t)
        if k == "bin":
            return self.binop(st, fr, e, hint)
        if k in ("var", "comp", "arrow", "idx", "mem", "deref", "glob", "vce"):
            if k == "glob" and self.p.data(e[1], fr.unit) is None and self.p.find(e[1], fr.unit) is not None:
                return self.new(st, FnV(e[1]))
            if k == "vce" and e[2][0] in ("ssa", "ssad"):
                a = self.ev(st, fr, e[2])
                t = self.named(fr, e[1])
                return self.retype(st, a, t, T.size(t))
            return self.load(st, fr, self.lval(st, fr, e))
        if k == "bfr":
            t = self.named(fr, e[1])
            try:
                if e[2][0] in ("ssa", "ssad"):
                    a = self.ev(st, fr, e[2])
                    b = self.bits(st, a, T.size(self.typeof(st, fr, e[2])))
                    if b is None:
                        return self.top(st, t)
                    r = icast(ibin(">>", b, ic(32, False, e[4]), b.w, False), e[3], False)
                    return self.new(st, r, st.q.get(a, 0))
                oid, off, t0, _ = self.lval(st, fr, e[2])
                if oid is not None and isinstance(off, int):
                    sz = T.size(t0)
                    v = self.read(st, oid, off, sz, ("int", sz * 8, False))
                    b = st.val[v]
                    if isinstance(b, IV):
                        r = ibin(">>", b, ic(32, False, e[4]), b.w, False)
                        return self.new(st, icast(icast(r, e[3], False), T.size(t) * 8, t[2] if t[0] == "int" else False), st.q.get(v, 0))
            except Giveup:
                pass
            return self.top(st, t)
        if k == "cond":
            c = self.ev(st, fr, e[1])
            r = self.truth(st, c)
            if r is None:
                raise NeedSplit(c, "bool")
            return self.ev(st, fr, e[2] if r else e[3], hint)
        if k == "brace":
            return self.new(st, Top(("void",)), 0)
        if k == "call":
            raise Giveup("nested call")
        raise Giveup("expr " + k)

    def truth(self, st, vid):
        v = st.val[vid]
        if isinstance(v, IV):
            if v.lo > 0 or v.hi < 0:
                return True
            if v.single:
                return v.lo != 0
            if icmp("==", v, ic(v.w, v.sg, 0)) is False:
                return True
            return None
        if isinstance(v, (FnV,)):
            return True
        if isinstance(v, PV):
            return True if v.obj is not None else None
        return None

    def unop(self, st, op, a, hint):
        v = st.val[a]
        q = st.q.get(a, 0)
        if isinstance(v, IV):
            w, sg = v.w, v.sg
            if op == "abs" and hint is not None and hint[0] == "int":
                w, sg = hint[1], hint[2]
            d = None
            if op == "!":
                d = ("not", a)
            elif op == "-":
                d = ("ineg", a)
            elif op == "~" and v.lo >= 0 and v.hi <= 1 and w == 8:
                d = ("not", a)
                return self.new(st, iv(8, False, 1 - v.hi, 1 - v.lo), q, d)
            return self.new(st, iun(op, v, w, sg), q, d)
        if isinstance(v, DV):
            if op == "-":
                return self.new(st, sgnop(v, "neg"), q, ("sgn", "neg", a))
            if op == "abs":
                return self.new(st, sgnop(v, "abs"), q, ("sgn", "abs", a))
        if isinstance(v, FV):
            if v.lo is not None and op == "-":
                return self.new(st, FV(v.w, -v.hi, -v.lo), q)
            return self.new(st, FV(v.w), 2)
        return self.new(st, v if isinstance(v, Top) else Top(("void",)), 2)

    def cast(self, st, a, t):
        v = st.val[a]
        q = st.q.get(a, 0)
        k = t[0]
        if isinstance(v, IV):
            if k == "int":
                if v.w == t[1] and v.sg == t[2]:
                    return a
                r = icast(v, t[1], t[2])
                return self.new(st, self.withprov(r, v.prov), q, ("cast", a))
            if k == "bool":
                r = self.truth(st, a)
                return self.new(st, iv(8, False, 0, 1) if r is None else ic(8, False, int(r)), q, ("cmp", "!=", a, None))
            if k == "ptr":
                return a
            if k == "dec":
                dv, fl = fromint(v.lo, v.hi, t[1], self.modes(st))
                self.flags(st, fl)
                return self.new(st, dv, q if v.single else max(q, 0), ("fromint", a))
            if k == "flt":
                if t[1] in (32, 64):
                    return self.new(st, FV(t[1], ftof(float_of(v.lo), t[1]), ftof(float_of(v.hi), t[1])), q)
                return self.new(st, FV(t[1]), 2)
        elif isinstance(v, DV):
            if k == "dec":
                dv, fl = dconv(v, t[1], self.modes(st))
                self.flags(st, fl)
                same = t[1] >= v.w
                return self.new(st, dv, q if same or dv.single else max(q, 1), ("dconv", a) if same else None)
            if k == "int":
                return self.dec2int(st, a, t)
            if k == "flt":
                return self.new(st, FV(t[1]), max(q, 1))
            if k == "bool":
                r = dcmp("!=", v, dconst(v.w, "0"))
                return self.new(st, iv(8, False, 0, 1) if r is None else ic(8, False, int(r)), q)
        elif isinstance(v, (PV, FnV)):
            if k == "ptr":
                return a
            if k == "int":
                return self.new(st, itop(t[1], t[2]), 2, ("ptrint", a))
        elif isinstance(v, FV):
            if k == "int":
                if v.lo is not None and abs(v.lo) < 1e18 and abs(v.hi) < 1e18:
                    return self.new(st, iv(t[1], t[2], int(v.lo), int(v.hi)) or itop(t[1], t[2]), q)
                return self.top(st, t)
            if k == "flt":
                if v.lo is not None and t[1] in (32, 64):
                    return self.new(st, FV(t[1], ftof(v.lo, t[1]), ftof(v.hi, t[1])), q)
                return self.new(st, FV(t[1]), q)
            if k == "dec":
                return self.new(st, dtop(t[1]), 2)
        return self.top(st, t)

    def dec2int(self, st, a, t):
        v = st.val[a]
        q = st.q.get(a, 0)
        rl, rh = rng(t[1], t[2])
        acc = None
        exact = True
        for at in v.atoms:
            r = toint_trunc(at)
            if r is None:
                acc = ijoin(acc, itop(t[1], t[2]))
                exact = False
                self.flags(st, Fl(INV, INV if len(v.atoms) == 1 else 0))
                continue
            lo, hi = r
            if hi < rl or lo > rh:
                acc = ijoin(acc, itop(t[1], t[2]))
                exact = False
                self.flags(st, Fl(INV, INV if len(v.atoms) == 1 else 0))
                continue
            if lo < rl or hi > rh:
                acc = ijoin(acc, itop(t[1], t[2]))
                self.flags(st, Fl(INV, 0))
                continue
            acc = ijoin(acc, iv(t[1], t[2], lo, hi))
        if not exact:
            self.event(st, "dec2int-invalid", ([show(x) for x in v.atoms if toint_trunc(x) is None or toint_trunc(x)[1] < rl or toint_trunc(x)[0] > rh],))
        return self.new(st, acc, q if acc.single and exact else max(q, 1), ("toint", a))

    def modes(self, st):
        """decimal rounding modes possible for native arithmetic"""
        r = st.facts.get("modes")
        try:
            o = self.global_obj("__bid_IDEC_glbround", "bid_decimal_globals")
        except KeyError:
            return list(MODES.values()) if r is None else r
        m = st.mem.get(o.id)
        if m and 0 in m:
            v = st.val[m[0][1]]
            if isinstance(v, IV):
                ms = [FE_MODES_BID[k] for k in range(5) if icmp("==", v, ic(v.w, v.sg, k)) is not False]
                if ms:
                    return ms
        return list(MODES.values())

    def flags(self, st, fl):
        st.glb_may |= fl.may
        st.glb_must |= fl.must

    def binop(self, st, fr, e, hint):
        op = e[1]
        ea, eb = e[2], e[3]
        ca, cb = isconst(ea), isconst(eb)
        if op in CMP or op in DCM:
            h = None
        else:
            h = hint
        if op in ("<<", ">>", "rotl", "rotr"):
            a = self.ev(st, fr, ea, h)
            b = self.ev(st, fr, eb, None)
        elif ca and not cb:
            b = self.ev(st, fr, eb, h)
            a = self.ev(st, fr, ea, self.vt(st.val[b], hint))
        else:
            a = self.ev(st, fr, ea, h)
            b = self.ev(st, fr, eb, self.vt(st.val[a], hint))
        return self.bin(st, op, a, b, hint, fr, e)

    def vt(self, v, hint):
        if isinstance(v, IV):
            return ("int", v.w, v.sg)
        if isinstance(v, DV) and v.w:
            return ("dec", v.w)
        if isinstance(v, FV):
            return ("flt", v.w)
        if isinstance(v, (PV, FnV)):
            return ("ptr", ("void",))
        return hint

    def bin(self, st, op, a, b, hint, fr=None, e=None):
        x, y = st.val[a], st.val[b]
        q = max(st.q.get(a, 0), st.q.get(b, 0))
        if op in CMP or op in DCM:
            r = self.compare(st, op, a, b)
            if r is None:
                return self.new(st, iv(8, False, 0, 1), q, ("cmp", op, a, b))
            return self.new(st, ic(8, False, int(r)), 0, ("cmp", op, a, b))
        # pointers
        if isinstance(x, PV) or isinstance(y, PV):
            if op == "+" and isinstance(x, PV) and isinstance(y, IV):
                if x.obj is None:
                    return a
                k = tos(y.lo & ((1 << 64) - 1), 64, True) if y.single else icast(y, 64, True)
                return self.new(st, PV(x.obj, self.addoff(x.off, k)), q, ("padd", a, b))
            if op == "+" and isinstance(y, PV) and isinstance(x, IV):
                return self.bin(st, op, b, a, hint)
            if op == "-" and isinstance(x, PV) and isinstance(y, PV) and x.obj == y.obj and x.obj is not None:
                l = x.off if isinstance(x.off, IV) else ic(64, True, x.off)
                r = y.off if isinstance(y.off, IV) else ic(64, True, y.off)
                return self.new(st, ibin("-", l, r, 64, True), q)
            if op == "-" and isinstance(x, PV) and isinstance(y, IV):
                if x.obj is None:
                    return a
                return self.new(st, PV(x.obj, self.addoff(x.off, iun("-", icast(y, 64, True), 64, True))), q)
            return self.top(st, hint or ("int", 64, True))
        if isinstance(x, IV) and isinstance(y, IV):
            if hint is not None and hint[0] == "int":
                w, sg = hint[1], hint[2]
            elif hint is not None and hint[0] == "bool":
                w, sg = 8, False
            else:
                w, sg = x.w, x.sg
            if op in ("<<", ">>"):
                if x.single and x.lo == 0:
                    pass
                elif y.lo >= w or y.hi < 0:
                    self.event(st, "shift", (repr(y), w))
                elif y.hi >= w or y.lo < 0:
                    self.event(st, "shift?", (repr(y), w))
            elif op in ("/", "%") and y.single and y.lo == 0:
                self.event(st, "divzero", ())
            r = ibin(op, x, y, w, sg)
            d = None
            prov = None
            if op in ("+", "-") and not (x.single and y.single):
                v = self.dnsum(st, op, a, b, x, y, r, w, sg)
                if v is not None:
                    return v
            if op in ("+", "|") and w == 64 and not sg and not (x.single or y.single):
                v = self.rejoin(st, a, b)
                if v is not None:
                    return v
            if y.single:
                if op == "+":
                    d = ("addc", a, y.lo)
                elif op == "-":
                    d = ("addc", a, -y.lo)
                elif op == "&":
                    d = ("andc", a, y.lo)
                elif op == "*":
                    d = ("mulc", a, y.lo)
                elif op in (">>", "<<"):
                    d = ("shr" if op == ">>" else "shl", a, y.lo)
                    if not 0 <= y.lo < w and not r.single:
                        return self.new(st, r, 2)
                if x.w == w and x.sg == sg and y.lo == (1 if op in ("*", "/") else 0) and op in ("+", "-", "|", "^", "<<", ">>", "*", "/"):
                    return a
                prov = self.bitprov(st, op, x, y)
            elif x.single and op in ("&", "|", "^", "+"):
                prov = self.bitprov(st, op, y, x)
                if op == "&":
                    d = ("andc", b, x.lo)
                elif op == "+":
                    d = ("addc", b, x.lo)
                if y.w == w and y.sg == sg and x.lo == 0 and op in ("+", "|", "^"):
                    return b
            elif x.single and op == "*":
                if y.w == w and y.sg == sg and x.lo == 1:
                    return b
                d = ("mulc", b, x.lo)
            if op in ("|", "||") and hint is not None and (hint[0] == "bool" or (x.lo >= 0 and y.lo >= 0)):
                d = ("or", a, b)
            elif op in ("&", "&&") and x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
                d = ("andb", a, b)
            elif op == "-" and d is None:
                d = ("isub", a, b)
            if op in ("||", "&&"):
                ta, tb = self.truth(st, a), self.truth(st, b)
                if op == "||":
                    tv = True if (ta or tb) else (False if ta is False and tb is False else None)
                else:
                    tv = False if (ta is False or tb is False) else (True if ta and tb else None)
                r = iv(8, False, 0, 1) if tv is None else ic(8, False, int(tv))
            if prov is not None:
                r = self.withprov(r, prov)
            elif op == "&" and (x.single or y.single):
                z, m = (x, y) if y.single else (y, x)
                r = self.encmask(st, z, m.lo & ((1 << w) - 1), r)
                r = self.expfield(st, a if y.single else b, m.lo & ((1 << w) - 1), r)
                f = self.bitfield(st, a if y.single else b, m.lo & ((1 << w) - 1), w)
                if f is not None and isinstance(st.val[f], IV) and not r.single and r.lo <= st.val[f].lo and st.val[f].hi <= r.hi:
                    v = st.val[f]
                    if v.w == w and v.sg == sg:
                        return f
                    return self.new(st, icast(v, w, sg), q, ("cast", f))
            if r.single:
                return self.new(st, r, 0 if q == 0 else q if False else 0 if q == 0 else q, d)
            # non-singleton combinations of two unknowns lose the relation between them
            if not (x.single or y.single):
                q, src = self.depq(st, max(q, 1), a, b, strict=a != b)
                if src and d is None:
                    return self.computed(st, self.new(st, r, q), src)
            elif op not in ("+", "-", "&", "|", "^", "<<", ">>", "*", "max", "min"):
                q = max(q, 1)
            return self.new(st, r, q, d)
        if isinstance(x, DV) and isinstance(y, DV):
            w = x.w or y.w
            dv, fl = dop(op, x, y, self.modes(st), w)
            self.flags(st, fl)
            if dv is None:
                raise Dead()
            q, src = self.depq(st, q, a, b)
            return self.computed(st, self.new(st, dv, q if dv.single else max(q, 1), ("dop", op, a, b)), src)
        if isinstance(x, FV) and isinstance(y, FV):
            if None not in (x.lo, y.lo) and x.lo == x.hi and y.lo == y.hi:
                try:
                    r = {"+": x.lo + y.lo, "-": x.lo - y.lo, "*": x.lo * y.lo}.get(op)
                    if op == "/" and y.lo != 0:
                        r = x.lo / y.lo
                    if r is not None:
                        r = ftof(r, x.w)
                        return self.new(st, FV(x.w, r, r), q)
                except OverflowError:
                    pass
            return self.new(st, FV(x.w), 2)
        return self.top(st, hint or ("int", 64, False))

    def dnterms(self, st, vid, depth=0):
        """vid as a sum: ({(kind, root): coefficient}, constant), over the digits and exponents of decNumbers"""
        v = st.val[vid]
        if isinstance(v, IV) and v.single:
            d = st.defs.get(vid)
            if not (d and d[0] in ("dndig", "dnexp")):
                return {}, v.lo
        d = st.defs.get(vid)
        if d is None or depth > 6:
            return None
        if d[0] in ("dndig", "dnexp"):
            return {(d[0], self.root(st, d[1])): 1}, 0
        if d[0] == "cast":
            y = st.val[d[1]]
            if isinstance(y, IV) and y.lo == v.lo and y.hi == v.hi:
                return self.dnterms(st, d[1], depth + 1)
            return None
        if d[0] == "addc":
            t = self.dnterms(st, d[1], depth + 1)
            return t and (t[0], t[1] + d[2])
        if d[0] == "dnsum":
            return dict(d[1]), d[2]
        return None

    def dnsum(self, st, op, a, b, x, y, r, w, sg):
        """a sum of digit counts and exponents of decNumbers, with the range their values allow together"""
        if w < 32 or not sg:
            return None
        p = self.dnterms(st, a)
        if not p:
            return None
        s = self.dnterms(st, b)
        if not s or not (p[0] or s[0]):
            return None
        t = dict(p[0])
        sn = 1 if op == "+" else -1
        for k, c in s[0].items():
            t[k] = t.get(k, 0) + sn * c
        t = {k: c for k, c in t.items() if c}
        if len(t) < 2:
            return None
        c0 = p[1] + sn * s[1]
        lo = hi = c0
        left = dict(t)
        for (kind, v), c in t.items():
            if (kind, v) not in left:
                continue
            o = ("dndig" if kind == "dnexp" else "dnexp", v)
            dv = st.val.get(v)
            at = dv.atoms[0] if isinstance(dv, DV) and len(dv.atoms) == 1 else None
            if left.get(o) == c and at is not None and at.kind == "fin" and abs(at.lo.adjusted()) < 10 ** 8 and abs(at.hi.adjusted()) < 10 ** 8:
                l, h = at.lo.adjusted() + 1, at.hi.adjusted() + 1
                del left[o]
            else:
                l, h = self.dnrange(st, kind, v)
                if l is None:
                    return None
            del left[(kind, v)]
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        lo, hi = max(lo, r.lo), min(hi, r.hi)
        if lo > hi:
            return None
        z = iv(w, sg, lo, hi)
        vid = self.new(st, z, max(1, max(st.q.get(a, 0), st.q.get(b, 0))) if lo < hi else max(st.q.get(a, 0), st.q.get(b, 0)) if len(t) > 2 else 0,
                       ("dnsum", tuple(sorted(t.items())), c0))
        if lo < hi:
            st.facts[("dnsum", tuple(sorted(t.items())), c0)] = vid
        if lo < hi and len(t) == 2 and len({v for _, v in t}) == 1:
            # every value in between is attained
            return self.computed(st, vid, frozenset(self.dnsrcs(st, [v for _, v in t])))
        if lo < hi:
            st.q[vid] = 2
        return vid

    def dnsrcs(self, st, vs):
        out = set()
        for v in vs:
            L = set()
            self.dleaves(st, v, L)
            for x in L:
                out |= set(st.srcs.get(x, (x,)))
        return out

    def dnrange(self, st, kind, v):
        dv = st.val.get(v)
        if not isinstance(dv, DV) or len(dv.atoms) != 1:
            return None, None
        a = dv.atoms[0]
        if a.kind == "inf":
            return (1, 1) if kind == "dndig" else (0, 0)
        if a.rep is not None:
            n = len(str(a.rep[0])) if kind == "dndig" else a.rep[1]
            return n, n
        if a.kind != "fin":
            return None, None
        if isinstance(a.enc, tuple):
            if kind == "dnexp":
                return a.enc[2], a.enc[2]
            return len(str(a.enc[0])), len(str(a.enc[1]))
        if kind == "dndig":
            return 1, 34
        if abs(a.lo.adjusted()) < 10 ** 8 and abs(a.hi.adjusted()) < 10 ** 8:
            return a.lo.adjusted() - 33, a.hi.adjusted()
        return None, None

    def rejoin(self, st, a, b):
        """v when a is v with its low half cleared and b is v's low half, or the other way round"""
        def strip(u, n):
            for _ in range(6):
                d = st.defs.get(u)
                if d is None or d[0] != "cast":
                    return u
                x, y = st.val[u], st.val[d[1]]
                if not (isinstance(x, IV) and isinstance(y, IV) and (min(x.w, y.w) >= n or x.lo == y.lo >= 0 and x.hi == y.hi)):
                    return u
                u = d[1]
            return u
        for p, o in ((a, b), (b, a)):
            d = st.defs.get(p)
            if d is None or d[0] != "shl" or d[2] != 32:
                continue
            d = st.defs.get(strip(d[1], 64))
            if d is None or d[0] != "shr" or d[2] != 32:
                continue
            v = d[1]
            x = st.val[v]
            if not isinstance(x, IV) or x.w != 64 or x.sg:
                continue
            y = st.val[o]
            if not isinstance(y, IV) or not 0 <= y.lo <= y.hi < 1 << 32:
                continue
            u = strip(o, 32)
            d = st.defs.get(u)
            if d is not None and d[0] == "andc" and d[2] == 0xffffffff:
                u = strip(d[1], 32)
            if u == v:
                return v
        return None

    def bitfield(self, st, vid, mask, w, depth=0):
        """the operand of a chain of bitwise ors that alone fills the masked bits of the chain"""
        v = st.val[vid]
        if depth and isinstance(v, IV) and v.w == w and 0 <= v.lo and v.hi <= mask and not v.single and mask & (mask + 1) == 0:
            return vid
        d = st.defs.get(vid)
        if d is None or depth > 8:
            return None
        if d[0] == "cast":
            u = st.val.get(d[1])
            if isinstance(u, IV) and isinstance(v, IV) and u.lo >= 0 and v.lo >= 0 and u.lo == v.lo and u.hi == v.hi:
                return self.bitfield(st, d[1], mask, w, depth + 1)
            return None
        if d[0] != "or":
            return None
        for p, o in ((d[1], d[2]), (d[2], d[1])):
            u = st.val.get(o)
            if isinstance(u, IV) and all(m & mask == mask and x & mask == 0 for m, x in u.dj):
                r = self.bitfield(st, p, mask, w, depth + 1)
                if r is not None:
                    return r
        return None

    def encmask(self, st, x, mask, r):
        """tighten (encoding bits & mask) with what a canonical finite operand allows"""
        if x.prov is None:
            return r
        dv = st.val.get(x.prov[0])
        if isinstance(dv, DV) and dv.w and len(dv.atoms) == 1 and x.w <= 64:
            b = bid_mask(dv.atoms[0], dv.w, x.prov[1], mask, x.w)
            if b is not None:
                return iv(r.w, r.sg, max(r.lo, b[0]), min(r.hi, b[1]), r.dj, r.prov) or r
        return r

    def expfield(self, st, vid, mask, r):
        """tighten an extracted exponent field with what the operand's magnitude allows"""
        if mask not in (0xff, 0x3ff, 0x3fff):
            return r
        sh = 0
        for _ in range(6):
            v = st.val[vid]
            if not isinstance(v, IV):
                return r
            if v.prov is not None:
                break
            d = st.defs.get(vid)
            if d is None or d[0] not in ("shr", "cast"):
                return r
            if d[0] == "shr":
                sh += d[2]
            vid = d[1]
        else:
            return r
        if v.prov is None:
            return r
        dv = st.val.get(v.prov[0])
        if not isinstance(dv, DV) or not dv.w or len(dv.atoms) != 1:
            return r
        a, w = dv.atoms[0], dv.w
        eb = {32: 8, 64: 10, 128: 14}[w]
        if a.kind != "fin" or a.rep is not None or mask != (1 << eb) - 1:
            return r
        f = FMT[w]
        lo, hi = max(0, a.lo.adjusted() - f.p + 1 - f.etiny), a.hi.adjusted() - f.etiny
        pos = v.prov[1] + sh
        if pos == w - 1 - eb:
            # a small coefficient: the field's leading bits are not both set
            if w != 128 and any(m >> eb - 2 & 3 != 3 or x >> eb - 2 & 3 == 3 for m, x in r.dj):
                return r
        elif pos == w - 3 - eb and w != 128:
            lo, hi = max(0, a.lo.adjusted() - f.p + 1 - f.etiny), a.hi.adjusted() - f.p + 1 - f.etiny
            if a.enc != "l":
                # only meaningful in the large form, which the caller has tested for
                k = st.val[vid]
                top = v.prov[1] + v.w
                if top < w or any(m >> w - 3 - v.prov[1] & 3 != 3 or x >> w - 3 - v.prov[1] & 3 != 3 for m, x in k.dj):
                    return r
        else:
            return r
        return iv(r.w, r.sg, max(r.lo, lo), min(r.hi, hi), r.dj, r.prov) or r

    def bitprov(self, st, op, x, y):
        """provenance of (word of a decimal) op constant when only the sign bit is involved"""
        if x.prov is None:
            return None
        vid, sh = x.prov
        dv = st.val.get(vid)
        if not isinstance(dv, DV) or not dv.w:
            return None
        full = (1 << x.w) - 1
        sb = dv.w - 1 - sh
        c = y.lo & full
        if sb < 0 or sb >= x.w:
            if op in ("|", "^", "+") and c == 0:
                return x.prov
            if op == "&" and c == full:
                return x.prov
            return None
        if x.w - 1 != sb:
            return None
        s = 1 << sb
        if op == "&" and c == full:
            return x.prov
        if op in ("|", "^", "+") and c == 0:
            return x.prov
        if op == "&" and c == (full & ~s):
            return (self.new(st, sgnop(dv, "abs"), st.q.get(vid, 0), ("sgn", "abs", vid)), sh)
        if op == "|" and c == s:
            return (self.new(st, sgnop(dv, "set"), st.q.get(vid, 0), ("sgn", "set", vid)), sh)
        if op == "^" and c == s:
            return (self.new(st, sgnop(dv, "neg"), st.q.get(vid, 0), ("sgn", "neg", vid)), sh)
        return None

    def compare(self, st, op, a, b):
        x, y = st.val[a], st.val[b]
        if a == b and not isinstance(x, DV):
            return {"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True}.get(op)
        if isinstance(x, IV) and isinstance(y, IV):
            if op not in CMP:
                return None
            r = icmp(op, x, y)
            if r is None:
                r = self.dncmp(st, op, a, b)
            if r is None:
                r = self.related(st, op, a, b)
            return r
        if isinstance(x, DV) and isinstance(y, DV):
            if a == b or self.same(st, a) == self.same(st, b):
                nan = [t for t in x.atoms if "nan" in t.kind]
                eqr = op in ("==", "<=", ">=", "ord", "unle", "unge", "uneq")
                res = set()
                if len(nan) < len(x.atoms):
                    res.add(eqr)
                if nan:
                    res.add("un" in DCM[op])
                self.cmpflags(st, op, x, y)
                return res.pop() if len(res) == 1 else None
            self.cmpflags(st, op, x, y)
            return dcmp(op, x, y)
        if isinstance(x, (PV, FnV)) or isinstance(y, (PV, FnV)):
            if isinstance(x, IV):
                x, y = y, x
            if isinstance(y, IV) and y.single and y.lo == 0:
                if isinstance(x, FnV) or (isinstance(x, PV) and x.obj is not None):
                    return {"==": False, "!=": True, ">": True, "<=": False}.get(op)
                f = st.facts.get(("null", a)) or st.facts.get(("null", b))
                return None
            if isinstance(x, PV) and isinstance(y, PV) and x.obj is not None and y.obj is not None:
                if x.obj == y.obj:
                    l = x.off if isinstance(x.off, IV) else ic(64, True, x.off)
                    r = y.off if isinstance(y.off, IV) else ic(64, True, y.off)
                    rr = icmp(op, l, r)
                    if rr is None and isinstance(st.val[a], PV):
                        # equal base pointers plus constants
                        ra, rb = self.prel(st, a), self.prel(st, b)
                        if ra[0] == rb[0]:
                            return {"<": ra[1] < rb[1], ">": ra[1] > rb[1], "<=": ra[1] <= rb[1], ">=": ra[1] >= rb[1],
                                    "==": ra[1] == rb[1], "!=": ra[1] != rb[1]}[op]
                    return rr
                return {"==": False, "!=": True}.get(op)
            if isinstance(x, FnV) and isinstance(y, FnV):
                return {"==": x.name == y.name, "!=": x.name != y.name}.get(op)
            return None
        if isinstance(x, FV) and isinstance(y, FV) and None not in (x.lo, y.lo):
            if op == "<":
                return True if x.hi < y.lo else False if x.lo >= y.hi else None
            if op == ">":
                return True if x.lo > y.hi else False if x.hi <= y.lo else None
            if op == "<=":
                return True if x.hi <= y.lo else False if x.lo > y.hi else None
            if op == ">=":
                return True if x.lo >= y.hi else False if x.hi < y.lo else None
        return None

    REL = {"<": "<", ">": ">", "<=": "<=", ">=": ">=", "==": "=", "!=": "<>"}

    def iroot(self, st, vid):
        """the integer a value is a value-preserving conversion of"""
        while True:
            d = st.defs.get(vid)
            if d is not None and d[0] == "cast" and d[1] in st.val:
                x, y = st.val[vid], st.val[d[1]]
                if isinstance(y, IV) and isinstance(x, IV) and x.lo == y.lo and x.hi == y.hi:
                    vid = d[1]
                    continue
            return vid

    def related(self, st, op, a, b):
        """decide a comparison by what earlier branches assumed about the same two values"""
        a, b = self.iroot(st, a), self.iroot(st, b)
        if a == b:
            return op in ("==", "<=", ">=")
        r = st.facts.get(("rel", min(a, b), max(a, b)))
        if r is None:
            return None
        if a > b:
            r = r.translate(FLIP)
        w = self.REL[op]
        if all(c in w for c in r):
            return True
        if not any(c in w for c in r):
            return False
        return None

    def relate(self, st, a, op, b, truth):
        if op not in self.REL:
            return
        a, b = self.iroot(st, a), self.iroot(st, b)
        if a == b:
            return
        w = self.REL[op]
        r = "".join(c for c in "<=>" if (c in w) == truth)
        if a > b:
            a, b, r = b, a, r.translate(FLIP)
        k = ("rel", a, b)
        o = st.facts.get(k)
        st.facts[k] = r if o is None else "".join(c for c in o if c in r)

    def same(self, st, vid):
        """the value a decimal is an exact copy of"""
        while True:
            d = st.defs.get(vid)
            if d is not None and d[0] in ("dncopy", "dconv") and isinstance(st.val.get(d[1]), DV):
                vid = d[1]
            else:
                return vid

    def prel(self, st, vid):
        k = 0
        while True:
            d = st.defs.get(vid)
            if d and d[0] == "padd":
                y = st.val[d[2]]
                if isinstance(y, IV) and y.single:
                    k += tos(y.lo & ((1 << 64) - 1), 64, True)
                    vid = d[1]
                    continue
            return vid, k

    def cmpflags(self, st, op, x, y):
        sn = dsig(x.atoms) or dsig(y.atoms)
        nan = any("nan" in t.kind for t in x.atoms + y.atoms)
        if nan and op in ("<", ">", "<=", ">=", "ltgt"):
            st.glb_may |= INV
        elif sn:
            st.glb_may |= INV

    def words(self, st, a, b):
        """(decimal, decimal, bit position) when a and b are the same word of two encodings"""
        x, y = st.val[a], st.val[b]
        if x.prov is None or y.prov is None or x.w != y.w or x.prov[1] != y.prov[1]:
            return None
        u, v = x.prov[0], y.prov[0]
        if not isinstance(st.val.get(u), DV) or not isinstance(st.val.get(v), DV) or not st.val[u].w \
                or st.val[u].w != st.val[v].w or x.w != min(64, st.val[u].w):
            return None
        return u, v, x.prov[1]

    def dncmp(self, st, op, a, b):
        """encodings of different numbers differ in some bit"""
        if op not in ("==", "!="):
            return None
        k = self.words(st, a, b)
        if k is None:
            return None
        u, v, sh = k
        if st.val[u].w == 128 and ("weq", u, v, 64 - sh) not in st.facts:
            return None
        for p in st.val[u].atoms:
            for r in st.val[v].atoms:
                if p.kind == r.kind and p.sign == r.sign and not (p.kind == "fin" and (p.hi < r.lo or r.hi < p.lo)):
                    return None
        return op == "!="

    # ---------------------------------------------------------------- refinement
    def refine(self, st, a, op, b, truth, depth=0):
        """assume (a op b) == truth; False if impossible."""
        if depth > 40:
            return True
        x, y = st.val.get(a), st.val.get(b) if b is not None else None
        if isinstance(x, IV) and (b is None):
            z = ic(x.w, x.sg, 0)
            o = op if truth else NEG[op]
            nx = irefine(o, x, z)
            if nx is None:
                return False
            return self.setval(st, a, nx, depth)
        if isinstance(x, IV) and isinstance(y, IV):
            if op not in CMP:
                return True
            o = op if truth else NEG[op]
            nx = irefine(o, x, y)
            if nx is None:
                return False
            if not self.setval(st, a, nx, depth):
                return False
            y = st.val[b]
            ny = irefine(SWAP[o], y, st.val[a])
            if ny is None:
                return False
            if o == "==" and x.lo <= 0 <= x.hi:
                d = st.defs.get(a)
                if d and d[0] == "isub" and y.single and y.lo == 0:
                    if not self.refine(st, d[1], "==", d[2], True, depth + 1):
                        return False
            if o == "==":
                k = self.words(st, a, b)
                if k is not None:
                    st.facts[("weq",) + k] = 1
            return self.setval(st, b, ny, depth)
        if isinstance(x, DV) and isinstance(y, DV):
            if op not in DCM:
                return True
            want = DCM[op]
            if a == b:
                t = set()
                keep = []
                for at in x.atoms:
                    r = {"un"} if "nan" in at.kind else {"eq"}
                    ok = bool(r & want) == truth
                    if ok:
                        keep.append(at)
                if not keep:
                    return False
                return self.setval(st, a, DV(x.w, keep), depth)
            nx = drefine(op, x, y, truth)
            if nx is None:
                return False
            if not self.setval(st, a, nx, depth):
                return False
            sw = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "unlt": "ungt", "ungt": "unlt", "unle": "unge",
                  "unge": "unle"}.get(op, op)
            ny = drefine(sw, st.val[b], st.val[a], truth)
            if ny is None:
                return False
            return self.setval(st, b, ny, depth)
        if isinstance(x, PV) and x.obj is None and isinstance(y, IV) and y.single and y.lo == 0:
            isnull = (op == "==") == truth
            if op in ("==", "!="):
                if isnull:
                    st.val[a] = ic(64, False, 0)
                else:
                    o = self.newobj("*unknown", ("void",), None, "opaque")
                    st.val[a] = PV(o.id, 0)
            return True
        return True

    def setval(self, st, vid, nv, depth=0):
        old = st.val[vid]
        if nv is old:
            return True
        if isinstance(old, IV) and isinstance(nv, IV) and old.key() == nv.key():
            return True
        if isinstance(old, DV) and old.atoms == nv.atoms:
            return True
        if isinstance(nv, IV) and nv.prov is None and old.prov is not None:
            nv = self.withprov(nv, old.prov)
        st.val[vid] = nv
        d = st.defs.get(vid)
        if d is None:
            return True
        k = d[0]
        if isinstance(nv, IV):
            if k == "cmp" and nv.single:
                if d[3] is None:
                    return self.refine(st, d[2], d[1], None, nv.lo != 0, depth + 1)
                return self.refine(st, d[2], d[1], d[3], nv.lo != 0, depth + 1)
            if k == "not" and nv.single:
                return self.refine(st, d[1], "==", None, nv.lo != 0, depth + 1)
            if k == "cast":
                s = st.val[d[1]]
                if isinstance(s, IV):
                    rl, rh = rng(nv.w, nv.sg)
                    if rl <= s.lo and s.hi <= rh or nv.w >= s.w:
                        back = icast(nv, s.w, s.sg)
                        r = irefine("==", s, back)
                        if r is None:
                            return False
                        return self.setval(st, d[1], r, depth + 1)
                    else:
                        # low bits only
                        nd = []
                        full = (1 << nv.w) - 1
                        for m1, v1 in s.dj:
                            for m2, v2 in nv.dj:
                                if not ((v1 ^ v2) & m1 & m2):
                                    nd.append((m1 | (m2 & full), v1 | (v2 & full)))
                        if not nd:
                            return False
                        r = iv(s.w, s.sg, s.lo, s.hi, tuple(nd), s.prov)
                        if r is None:
                            return False
                        return self.setval(st, d[1], r, depth + 1)
            if k == "addc":
                s = st.val[d[1]]
                if isinstance(s, IV):
                    lo, hi = nv.lo - d[2], nv.hi - d[2]
                    rl, rh = rng(s.w, s.sg)
                    if not s.sg and d[2] < 0 or not s.sg and d[2] >= 1 << (s.w - 1):
                        c = d[2] & ((1 << s.w) - 1)
                        lo, hi = (nv.lo - c), (nv.hi - c)
                        if lo < 0 and hi < 0:
                            lo += 1 << s.w
                            hi += 1 << s.w
                        elif lo < 0:
                            return True
                    if lo > hi or lo < rl or hi > rh:
                        return True
                    vs = values(nv)
                    dj = s.dj
                    r = iv(s.w, s.sg, max(s.lo, lo), min(s.hi, hi), dj, s.prov)
                    if r is None:
                        return False
                    return self.setval(st, d[1], r, depth + 1)
            if k in ("mulc", "shl", "shr"):
                s = st.val[d[1]]
                c = d[2]
                if isinstance(s, IV) and s.lo >= 0 and nv.lo >= 0 and c > 0:
                    lo = hi = None
                    if k == "shr":
                        lo, hi = nv.lo << c, (nv.hi << c) | (1 << c) - 1
                    else:
                        f = c if k == "mulc" else 1 << c
                        if s.hi * f <= rng(nv.w, nv.sg)[1]:
                            lo, hi = -(-nv.lo // f), nv.hi // f
                    if lo is not None:
                        if lo > hi or hi < s.lo or lo > s.hi:
                            return False
                        if lo > s.lo or hi < s.hi:
                            r = iv(s.w, s.sg, max(s.lo, lo), min(s.hi, hi), s.dj, s.prov)
                            if r is None:
                                return False
                            return self.setval(st, d[1], r, depth + 1)
                return True
            if k == "andc":
                s = st.val[d[1]]
                if isinstance(s, IV):
                    full = (1 << s.w) - 1
                    c = d[2] & full
                    nd = []
                    for m1, v1 in s.dj:
                        for m2, v2 in nv.dj:
                            m3, v3 = m2 & c, v2 & c
                            if not ((v1 ^ v3) & m1 & m3):
                                nd.append((m1 | m3, v1 | v3))
                    if not nd:
                        return False
                    r = iv(s.w, s.sg, s.lo, s.hi, tuple(set(nd)), s.prov)
                    if r is None:
                        return False
                    return self.setval(st, d[1], r, depth + 1)
            if k == "or":
                if nv.single and nv.lo == 0:
                    return self.refine(st, d[1], "==", None, True, depth + 1) and self.refine(st, d[2], "==", None, True, depth + 1)
                if nv.lo > 0:
                    for p, o in ((d[1], d[2]), (d[2], d[1])):
                        if self.truth(st, p) is False:
                            return self.refine(st, o, "!=", None, True, depth + 1)
            if k == "andb" and nv.single and nv.lo == 1:
                return self.refine(st, d[1], "!=", None, True, depth + 1) and self.refine(st, d[2], "!=", None, True, depth + 1)
            if k == "andb" and nv.single and nv.lo == 0:
                for p, o in ((d[1], d[2]), (d[2], d[1])):
                    if self.truth(st, p) is True:
                        return self.refine(st, o, "==", None, True, depth + 1)
            if k == "dnlsu" and nv.single and nv.lo == 0:
                st.facts[("lsu0", d[1])] = 0
            if k == "classof":
                # integer result of a modelled classification: ("classof", fn, dv)
                dv = st.val[d[2]]
                keep = []
                for at in dv.atoms:
                    r = d[1](at)
                    if r is None or icmp("==", nv, r) is not False:
                        keep.append(at)
                if not keep:
                    return False
                return self.setval(st, d[2], DV(dv.w, keep), depth + 1)
            if k == "ineg":
                s = st.val[d[1]]
                if isinstance(s, IV) and s.sg:
                    r = iv(s.w, s.sg, max(s.lo, -nv.hi), min(s.hi, -nv.lo), s.dj)
                    if r is None:
                        return False
                    return self.setval(st, d[1], r, depth + 1)
        elif isinstance(nv, DV):
            if k == "sgn":
                src = st.val[d[2]]
                keep = []
                for at in src.atoms:
                    im = sgnop(DV(src.w, [at]), d[1]).atoms[0]
                    for b in nv.atoms:
                        if b.kind == im.kind and b.sign == im.sign:
                            if b.kind == "fin":
                                lo, hi = max(b.lo, im.lo), min(b.hi, im.hi)
                                if lo > hi:
                                    continue
                                keep.append(at._replace(lo=lo, hi=hi, par=at.par or b.par, rep=at.rep if (lo, hi) == (at.lo, at.hi) else None))
                            else:
                                keep.append(at)
                            break
                if not keep:
                    return False
                return self.setval(st, d[2], DV(src.w, keep), depth + 1)
            if k in ("dconv", "dncopy"):
                src = st.val[d[1]]
                keep = []
                for at in src.atoms:
                    for b in nv.atoms:
                        if (b.kind == at.kind or (at.kind == "snan" and b.kind == "qnan")) and b.sign == at.sign:
                            if b.kind == "fin":
                                lo, hi = max(b.lo, at.lo), min(b.hi, at.hi)
                                if lo > hi:
                                    continue
                                keep.append(at._replace(lo=lo, hi=hi, rep=at.rep if (lo, hi) == (at.lo, at.hi) else None))
                            else:
                                keep.append(at)
                            break
                if not keep:
                    return False
                return self.setval(st, d[1], DV(src.w, keep), depth + 1)
            if k == "dop":
                return self.back_dop(st, nv, d, depth)
        return True

    def back_dop(self, st, nv, d, depth):
        """drop operand atoms that cannot produce the refined result"""
        op, a, b = d[1], d[2], d[3]
        x, y = st.val[a], st.val[b]
        kinds = set((t.kind, t.sign) for t in nv.atoms)
        modes = self.modes(st)

        def okpair(p, r):
            at, _, _ = _dop1_(op, p, r, modes, x.w or y.w)
            return any((t.kind, t.sign) in kinds for t in at)
        kx = [p for p in x.atoms if any(okpair(p, r) for r in (y.atoms if a != b else [p]))]
        if not kx:
            return False
        if len(kx) < len(x.atoms) and not self.setval(st, a, DV(x.w, kx), depth + 1):
            return False
        if a != b:
            ky = [r for r in y.atoms if any(okpair(p, r) for p in kx)]
            if not ky:
                return False
            if len(ky) < len(y.atoms) and not self.setval(st, b, DV(y.w, ky), depth + 1):
                return False
        return True

    # ---------------------------------------------------------------- running
    def start(self, fname, args, unit=None, setup=None):
        """args: list of abstract values or callables(st)->vid"""
        f = self.p.find(fname, unit)
        if f is None:
            raise Giveup("no function " + fname)
        st = State()
        if setup:
            setup(self, st)
        vids = []
        for a in args:
            if callable(a):
                vids.append(a(st))
            else:
                vids.append(self.new(st, a))
        self.inputs = set(vids)
        self.push(st, f, vids, None)
        return st, vids

    def push(self, st, f, vids, ret):
        fr = Frame(f)
        fr.ret = ret
        names = [n for n, t in f.params]
        for n, v in zip(names, vids):
            fr.env["P:" + n] = v
        # parameters whose address is taken live in memory
        pm = f._an.get("pmem")
        if pm is None:
            pm = set()
            ps = set(names)

            def scan(e):
                if isinstance(e, tuple):
                    if e and e[0] == "var" and e[1] in ps:
                        pm.add(e[1])
                    for x in e:
                        if isinstance(x, (tuple, list)):
                            scan(x)
                elif isinstance(e, list):
                    for x in e:
                        scan(x)
            for ss in f.blocks.values():
                for s in ss:
                    scan(s)
            f._an["pmem"] = pm
        st.frames.append(fr)
        for n, v in zip(names, vids):
            if n in pm:
                t = self.vart(fr, n)
                oid = self.local(st, fr, n)
                self.write(st, oid, 0, T.size(t) or 8, v)
        fr.va = vids[len(names):]
        self.stats["calls"].add((f.unit, f.name))

    def run(self, fname, args, unit=None, setup=None):
        self.t0 = time.time()
        self.steps = 0
        st, vids = self.start(fname, args, unit, setup)
        self.argvids = vids
        outs = []
        work = [st]
        while work:
            st = work.pop()
            try:
                self.exec(st, work, outs)
            except Dead:
                continue
            if len(outs) + len(work) > self.MAXPATHS:
                raise Giveup("paths")
        return outs

    def split(self, st, vid, work, parts=None):
        v = st.val[vid]
        q = self.forklevel(st, vid, None)
        self.stats["forks"] += 1
        if isinstance(v, DV):
            for at in v.atoms:
                s2 = st.copy()
                s2.level = max(s2.level, q)
                if self.setval(s2, vid, DV(v.w, [at])):
                    s2.trace = s2.trace + (("atom", show(at), s2.frames[-1].loc),)
                    work.append(s2)
        elif isinstance(v, IV):
            for truth in (True, False):
                s2 = st.copy()
                s2.level = max(s2.level, q)
                if self.refine(s2, vid, "!=", None, truth):
                    work.append(s2)
        else:
            raise Giveup("split")

    def exec(self, st, work, outs):
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEPS or (self.steps & 255) == 0 and time.time() - self.t0 > self.TIME:
                raise Giveup("steps")
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.block]
            if fr.idx >= len(blk):
                # block without explicit terminator: noreturn call
                raise Dead()
            s = blk[fr.idx]
            k = s[0]
            if s[-1] is not None:
                fr.loc = s[-1]
            try:
                if k == "assign":
                    self.assign(st, fr, s)
                    fr.idx += 1
                elif k == "call":
                    r = self.call(st, fr, s, work, outs)
                    if r == "stop":
                        return
                elif k == "goto":
                    if not self.jump(st, fr, s[1]):
                        return
                elif k == "if":
                    c = s[1]
                    self.stats["branches"] += 1
                    if c[0] == "bin":
                        a, b = self.operands(st, fr, c)
                        op = c[1]
                        r = self.compare(st, op, a, b)
                    else:
                        a, b, op = self.ev(st, fr, c), None, "!="
                        r = self.truth(st, a)
                    if r is not None:
                        if not self.jump(st, fr, s[2] if r else s[3]):
                            return
                    else:
                        self.branch(st, fr, a, op, b, s, work)
                        return
                elif k == "switch":
                    if self.switch(st, fr, s, work):
                        return
                elif k == "return":
                    v = self.ev(st, fr, s[1], self.named(fr, fr.f.rettype)) if s[1] is not None else None
                    if not self.ret(st, fr, v, outs):
                        return
                elif k == "clobber":
                    e = s[1]
                    if e is not None and e[0] == "var" and e[1] in fr.locals:
                        st.mem.pop(fr.locals[e[1]], None)
                    fr.idx += 1
                elif k == "phi":
                    self.phis(st, fr)
                else:
                    fr.idx += 1
            except NeedSplit as n:
                self.split(st, n.vid, work)
                return

    def operands(self, st, fr, c):
        ea, eb = c[2], c[3]
        if isconst(ea) and not isconst(eb):
            b = self.ev(st, fr, eb)
            return self.ev(st, fr, ea, self.vt(st.val[b], None)), b
        a = self.ev(st, fr, ea)
        return a, self.ev(st, fr, eb, self.vt(st.val[a], None))

    def noteund(self, fr):
        loops, inloop, back, succ = loops_of(fr.f)
        for h in inloop.get(fr.block, ()):
            fr.und[h] = fr.und.get(h, 0) + 1

    def forklevel(self, st, a, b):
        q = max(st.q.get(a, 0), st.q.get(b, 0) if b is not None else 0)
        L = set()
        self.dleaves(st, a, L)
        if b is not None:
            L2 = set()
            self.dleaves(st, b, L2)
            if q < 2:
                src = lambda vs: {s for v in vs for s in st.srcs.get(v, (v,))}
                if src(L) & src(L2):
                    q = 2       # the two sides do not vary independently
            L |= L2
        if q < 2 and not all(self.current(st, v) for v in L):
            q = 2
        for v in L:
            for s in st.srcs.get(v, (v,)):
                st.last[s] = v if v in st.srcs else None
                st.ver[s] = st.ver.get(s, 0) + 1
        return q

    # How exact is the range of a computed value?  Interval arithmetic gives attained ranges only when
    # its operands vary independently, and only as long as no branch has since narrowed what they were
    # computed from.  srcs[v]: inputs v was computed from; ver[s]: branches taken on (values computed
    # from) input s; stamp[v]: ver at v's computation; last[s]: computed value branched on last.
    DEF1 = {"sgn": 2, "dncopy": 1, "dconv": 1, "cast": 1, "exp": 1, "lsu0": 1, "dnlsu": 1, "dnexp": 1, "dndig": 1,
            "dnbits": 1, "not": 1, "ineg": 1, "andc": 1, "shr": 1, "shl": 1, "addc": 1, "mulc": 1, "fromint": 1}
    DEF2 = {"cmp": (2, 3), "or": (1, 2), "andb": (1, 2), "isub": (1, 2)}

    def dleaves(self, st, vid, out, depth=0):
        if vid in st.srcs:
            out.add(vid)
            return
        v = st.val.get(vid)
        d = st.defs.get(vid)
        if d is not None and depth < 30:
            i = self.DEF1.get(d[0])
            if i is not None:
                return self.dleaves(st, d[i], out, depth + 1)
            ii = self.DEF2.get(d[0])
            if ii is not None:
                for i in ii:
                    if d[i] is not None:
                        self.dleaves(st, d[i], out, depth + 1)
                return
        if isinstance(v, IV) and v.prov is not None:
            return self.dleaves(st, v.prov[0], out, depth + 1)
        if isinstance(v, IV) and v.single or isinstance(v, DV) and v.single:
            return
        if isinstance(v, (DV, IV)):
            out.add(vid)

    def current(self, st, v):
        if v in st.srcs:
            return all(st.ver.get(s, 0) == n or st.last.get(s) == v for s, n in st.stamp[v])
        return st.last.get(v) is None

    def depq(self, st, q, *vids, strict=False):
        """(quality, sources) of a value computed from vids"""
        src = set()
        sets = []
        for x in vids:
            L = set()
            self.dleaves(st, x, L)
            S = set()
            for v in L:
                if not self.current(st, v):
                    q = 2
                S |= set(st.srcs.get(v, (v,)))
            if S & src and (strict or L not in sets):
                q = 2
            sets.append(L)
            src |= S
        return q, frozenset(src)

    def computed(self, st, vid, src):
        st.srcs[vid] = src
        st.stamp[vid] = tuple((s, st.ver.get(s, 0)) for s in src)
        return vid

    def branch(self, st, fr, a, op, b, s, work):
        self.stats["forks"] += 1
        self.noteund(fr)
        q = self.forklevel(st, a, b)
        for truth, dst in ((False, s[3]), (True, s[2])):
            s2 = st.copy()
            s2.level = max(s2.level, q)
            ok = self.refine(s2, a, op, b, truth)
            if not ok:
                continue
            if b is not None and isinstance(st.val.get(a), IV) and isinstance(st.val.get(b), IV) and not st.val[a].single and not st.val[b].single:
                self.relate(s2, a, op, b, truth)
            if op in ("==", "!=") and truth == (op == "=="):
                self.pinned(st, s2, a)
                if b is not None:
                    self.pinned(st, s2, b)
            f2 = s2.frames[-1]
            s2.trace = s2.trace + ((truth, q, f2.loc, f2.f.name),)
            if self.jump(s2, f2, dst):
                work.append(s2)

    def pinned(self, st, s2, v):
        """v, a part of the encoding of an operand, has been assumed equal to one value; the other parts of that
        operand are no longer independent of the assumption"""
        x, y = st.val.get(v), s2.val.get(v)
        if not (isinstance(x, IV) and isinstance(y, IV) and y.single and not x.single and values(x) is None):
            return
        L = set()
        self.dleaves(st, v, L)
        for u in L:
            for s in st.srcs.get(u, (u,)):
                if isinstance(st.val.get(s), DV):
                    s2.last[s] = "pinned"

    def switch(self, st, fr, s, work):
        a = self.ev(st, fr, s[1])
        v = st.val[a]
        self.stats["branches"] += 1
        if not isinstance(v, IV):
            v = itop(32, True)
        live = []
        default = True
        for lo, hi, b in s[3]:
            if v.hi < lo or v.lo > hi:
                continue
            c = iv(v.w, v.sg, max(lo, v.lo), min(hi, v.hi), v.dj)
            if c is None:
                continue
            live.append((lo, hi, b))
        if v.single:
            dst = live[0][2] if live else s[2]
            return not self.jump(st, fr, dst)
        vs = values(v)
        if vs is not None:
            default = any(not any(lo <= x <= hi for lo, hi, _ in live) for x in vs)
        else:
            n = sum(min(hi, v.hi) - max(lo, v.lo) + 1 for lo, hi, _ in live)
            default = n < v.hi - v.lo + 1
        targets = [(lo, hi, b) for lo, hi, b in live]
        if len(targets) + default == 1:
            return not self.jump(st, fr, targets[0][2] if targets else s[2])
        self.noteund(fr)
        q = self.forklevel(st, a, None)
        for lo, hi, b in targets:
            s2 = st.copy()
            s2.level = max(s2.level, q)
            x = s2.val[a]
            nx = iv(x.w, x.sg, max(lo, x.lo), min(hi, x.hi), x.dj, x.prov) if isinstance(x, IV) else None
            if nx is not None and not self.setval(s2, a, nx):
                continue
            s2.trace = s2.trace + (("case", lo, s2.frames[-1].loc),)
            if self.jump(s2, s2.frames[-1], b):
                work.append(s2)
        if default:
            s2 = st.copy()
            s2.level = max(s2.level, q)
            x = s2.val[a]
            if isinstance(x, IV):
                if vs is not None:
                    rest = [y for y in vs if not any(lo <= y <= hi for lo, hi, _ in live)]
                    if not rest or not self.setval(s2, a, iset(x.w, x.sg, rest)):
                        return True
                else:
                    nx = x
                    for lo, hi, b in sorted(live):
                        if nx is not None and lo <= nx.lo <= hi:
                            nx = iv(nx.w, nx.sg, hi + 1, nx.hi, nx.dj, nx.prov)
                    if nx is None or not self.setval(s2, a, nx):
                        return True
            s2.trace = s2.trace + (("default", s2.frames[-1].loc),)
            if self.jump(s2, s2.frames[-1], s[2]):
                work.append(s2)
        return True

    def jump(self, st, fr, dst):
        loops, inloop, back, succ = loops_of(fr.f)
        src = fr.block
        fr.prev, fr.block, fr.idx = src, dst, 0
        if dst in loops:
            if (src, dst) in back:
                n = fr.iters.get(dst, 0) + 1
                fr.iters[dst] = n
                if fr.und.get(dst, 0) > self.UNROLL or n > self.MAXITER:
                    if fr.hav.get(dst):
                        return False
                    fr.hav[dst] = True
                    self.havoc_loop(st, fr, dst, loops[dst])
                    st.level = 2
            else:
                fr.iters[dst] = 0
                fr.und[dst] = 0
                fr.hav[dst] = False
        return True

    def havoc_loop(self, st, fr, h, body):
        f = fr.f
        info = f._an.get(("hav", h))
        if info is None:
            ssa, roots, ptrs, calls = set(), set(), [], []
            for b in body:
                for s in f.blocks[b]:
                    if s[0] in ("assign", "phi", "call"):
                        l = s[1]
                        if l is not None:
                            if l[0] == "ssa":
                                ssa.add(l[1])
                            else:
                                r = l
                                while r[0] in ("comp", "idx", "vce", "lit"):
                                    r = r[2] if r[0] in ("vce", "lit") else r[1]
                                if r[0] in ("var", "glob"):
                                    roots.add(r)
                                elif r[0] == "mem":
                                    ptrs.append(r[2])
                                elif r[0] in ("arrow", "deref"):
                                    ptrs.append(r[1])
                    if s[0] == "call":
                        calls.append(s[2])
            info = (ssa, roots, ptrs, calls)
            f._an[("hav", h)] = info
        ssa, roots, ptrs, calls = info
        # pointers first, while their values are still known
        for p in ptrs:
            self.havoc_ptr(st, fr, p, ssa)
        for r in roots:
            if r[0] == "var":
                self.havoc_obj(st, self.local(st, fr, r[1]))
            else:
                self.havoc_obj(st, self.global_obj(r[1], fr.unit).id)
        for c in calls:
            name = c[1][1] if c[1][0] == "glob" else None
            dn = name and (name.startswith("decNumber") or name.startswith("decimal"))
            for i, a in enumerate(c[2]):
                x = a
                while x[0] in ("lit", "cast"):
                    x = x[2]
                if x[0] == "addr":
                    y = x[1]
                    while y[0] in ("comp", "idx", "vce"):
                        y = y[1] if y[0] != "vce" else y[2]
                    if y[0] == "var":
                        oid = self.local(st, fr, y[1])
                        t = self.vart(fr, y[1])
                        if dn:
                            if i == 0 and not name.endswith("ToNumber") or (i == 1 and name.endswith("ToNumber")):
                                self.havoc_dn(st, oid)
                            elif t[0] == "rec" and any(ff[0] == "status" for ff in t[3]):
                                m = self.mem_of(st, oid)
                                m.pop(20, None)
                                m[20] = (4, self.top(st, ("int", 32, False)))
                        else:
                            self.havoc_obj(st, oid)
                    elif y[0] == "glob":
                        self.havoc_obj(st, self.global_obj(y[1], fr.unit).id)
                elif x[0] in ("ssa", "ssad") and not dn:
                    if self.ssat(fr, x[1])[0] == "ptr":
                        self.havoc_ptr(st, fr, x, ssa)
                elif x[0] in ("ssa", "ssad") and i == 0:
                    v = st.val.get(self.ev(st, fr, x))
                    if isinstance(v, PV) and v.obj is not None:
                        self.havoc_dn(st, v.obj)
        for n in ssa:
            if n in fr.env or True:
                fr.env[n] = self.top(st, self.ssat(fr, n))
        for s in f.blocks[h]:
            if s[0] == "phi":
                fr.env[s[1][1]] = self.havoc_phi(st, fr, s, body)
        # skip phi evaluation at the header
        i = 0
        while i < len(f.blocks[h]) and f.blocks[h][i][0] == "phi":
            i += 1
        fr.idx = i

    def havoc_phi(self, st, fr, s, body):
        t = self.ssat(fr, s[1][1])
        if t[0] == "ptr":
            # a pointer that only moves inside one object keeps its object
            objs = set()
            for b, e in s[2]:
                v = fr.env.get(e[1]) if e[0] in ("ssa", "ssad") else None
                x = None
                if b not in body and e[0] in ("ssa", "ssad", "lit", "addr"):
                    try:
                        x = st.val.get(self.ev(st, fr, e))
                    except Exception:
                        x = None
                if isinstance(x, PV):
                    objs.add(x.obj)
            if len(objs) == 1 and None not in objs:
                return self.new(st, PV(objs.pop(), itop(64, True)), 2)
        return self.top(st, t)

    def havoc_dn(self, st, oid):
        o = self.objs[oid]
        m = self.mem_of(st, oid)
        m.clear()
        m[0] = (o.size or 64, self.new(st, dtop(0), 2))

    def havoc_ptr(self, st, fr, p, ssa):
        x = p
        while x[0] in ("lit", "cast"):
            x = x[2]
        if x[0] == "addr":
            y = x[1]
            while y[0] in ("comp", "idx", "vce"):
                y = y[1] if y[0] != "vce" else y[2]
            if y[0] == "var":
                self.havoc_obj(st, self.local(st, fr, y[1]))
            return
        v = None
        if x[0] in ("ssa", "ssad"):
            vid = fr.env.get(x[1]) or fr.env.get("P:" + (x[2] if x[0] == "ssad" else ""))
            v = st.val.get(vid) if vid else None
        if isinstance(v, PV) and v.obj is not None:
            self.havoc_obj(st, v.obj)
        elif isinstance(v, IV):
            return
        else:
            # unknown target: everything writable
            self.smear_all(st)

    def phis(self, st, fr):
        blk = fr.f.blocks[fr.block]
        new = []
        i = fr.idx
        while i < len(blk) and blk[i][0] == "phi":
            s = blk[i]
            for b, e in s[2]:
                if b == fr.prev:
                    break
            else:
                raise Giveup("phi")
            if s[1][0] == "ssa":
                new.append((s[1][1], self.ev(st, fr, e, self.ssat(fr, s[1][1]))))
            i += 1
        for n, v in new:
            fr.env[n] = v
        fr.idx = i

    def assign(self, st, fr, s):
        l, r = s[1], s[2]
        if l[0] == "ssa":
            t = self.ssat(fr, l[1])
            fr.env[l[1]] = self.fit(st, self.ev(st, fr, r, t), t)
            return
        lv = self.lval(st, fr, l)
        t = lv[2]
        if t[0] in ("rec", "arr"):
            self.aggassign(st, fr, lv, r)
            return
        v = self.fit(st, self.ev(st, fr, r, t), t)
        self.store(st, fr, lv, v)

    def fit(self, st, vid, t):
        v = st.val[vid]
        if t[0] == "int" and isinstance(v, IV) and (v.w != t[1] or v.sg != t[2]):
            return self.new(st, self.withprov(icast(v, t[1], t[2]), v.prov), st.q.get(vid, 0), ("cast", vid))
        if t[0] == "dec" and isinstance(v, IV):
            return self.new(st, fromint(v.lo, v.hi, t[1], [MODES[0]])[0], st.q.get(vid, 0))
        return vid

    def aggassign(self, st, fr, lv, r):
        oid, off, t, _ = lv
        size = T.size(t)
        if oid is None:
            self.smear_all(st)
            return
        if r[0] == "brace" or (r[0] == "lit" and r[2][0] == "brace"):
            if isinstance(off, int):
                m = self.mem_of(st, oid)
                for k in [k for k, c in m.items() if k != "smear" and k < off + size and off < k + c[0]]:
                    del m[k]
                if size <= 16 and size in (1, 2, 4, 8, 16):
                    m[off] = (size, self.new(st, ic(size * 8, False, 0)))
                else:
                    i = 0
                    while i < size:
                        m[off + i] = (1, self.new(st, ic(8, False, 0)))
                        i += 1
            else:
                self.havoc_obj(st, oid)
            return
        if r[0] == "str":
            from .asmdata import unescape
            o = self.str_obj(r[1])
            b = o.data
            if isinstance(off, int):
                m = self.mem_of(st, oid)
                for k in [k for k, c in m.items() if k != "smear" and k < off + size and off < k + c[0]]:
                    del m[k]
                es = T.size(t[1]) if t[0] == "arr" else 1
                n = size // max(es, 1)
                body = b[:-1]
                if es == 1:
                    for i in range(n):
                        m[off + i] = (1, self.new(st, ic(8, True, body[i] if i < len(body) else 0)))
                else:
                    for i in range(n):
                        m[off + i * es] = (es, self.new(st, ic(8 * es, True, body[i] if i < len(body) else 0)))
            return
        if r[0] in ("ssa", "ssad"):
            v = self.ev(st, fr, r)
            self.write(st, oid, off, size, v)
            return
        try:
            so, soff, stt, _ = self.lval(st, fr, r)
        except Giveup:
            so = None
        if so is None or not isinstance(soff, int) or not isinstance(off, int):
            if so is not None and isinstance(off, int) and t[0] == "rec" and size in (8, 16):
                self.write(st, oid, off, size, self.read(st, so, soff, size, ("int", size * 8, False)))
                return
            self.havoc_obj(st, oid)
            return
        src = dict(st.mem.get(so) or {})
        m = self.mem_of(st, oid)
        for k in [k for k, c in m.items() if k != "smear" and k < off + size and off < k + c[0]]:
            del m[k]
        o = self.objs[so]
        if o.data is not None and (o.const or o.extra == "init") or not src and o.data is not None and o.const:
            seen = set()
            for fo, ft in self.leaves(t):
                sz = T.size(ft)
                m[off + fo] = (sz, self.read(st, so, soff + fo, sz, ft))
                seen.update(range(fo, fo + sz))
            for i in range(size):
                if i not in seen:       # bit-fields and padding
                    m[off + i] = (1, self.read(st, so, soff + i, 1, ("int", 8, False)))
            return
        if "smear" in src:
            m["smear"] = True
        for k, c in src.items():
            if k == "smear":
                continue
            if soff <= k and k + c[0] <= soff + size:
                m[off + k - soff] = c
            elif k < soff + size and soff < k + c[0]:
                if k <= soff:
                    n = min(size, k + c[0] - soff)
                    dv = st.val[c[1]]
                    if isinstance(dv, DV) and dv.w == 0 and k == soff:
                        m[off] = (size, c[1])
                    else:
                        vid = self.read(st, so, soff, n, ("int", n * 8, False))
                        m[off] = (n, vid)

    def leaves(self, t, off=0):
        if t[0] == "rec":
            for f in t[3]:
                if f[3] is None:
                    yield from self.leaves(f[2], off + f[1])
        elif t[0] == "arr":
            for i in range(t[2] or 0):
                yield from self.leaves(t[1], off + i * T.size(t[1]))
        else:
            yield off, t

    def ret(self, st, fr, v, outs):
        if v is not None:
            rt = self.named(fr, fr.f.rettype)
            v = self.fit(st, v, rt)
        st.frames.pop()
        for n, oid in fr.locals.items():
            st.mem.pop(oid, None)
        if not st.frames:
            outs.append(Outcome(v, st))
            return False
        c = st.frames[-1]
        self.finish_call(st, c, fr.ret, v)
        return True

    def finish_call(self, st, fr, lhs, v):
        """store a call result and advance"""
        if lhs is not None:
            if lhs[0] == "ssa":
                t = self.ssat(fr, lhs[1])
                if v is None:
                    v = self.top(st, t)
                fr.env[lhs[1]] = self.fit(st, v, t)
            else:
                lv = self.lval(st, fr, lhs)
                if v is None:
                    v = self.top(st, lv[2])
                self.store(st, fr, lv, v if lv[2][0] in ("rec", "arr") else self.fit(st, v, lv[2]))
        fr.idx += 1

    def call(self, st, fr, s, work, outs):
        lhs, e = s[1], s[2]
        fe = e[1]
        name = None
        if fe[0] == "glob":
            name = fe[1]
        else:
            fv = st.val[self.ev(st, fr, fe)]
            if isinstance(fv, FnV):
                name = fv.name
        hints = {}
        if name is not None and any(isconst(a) for a in e[2]):
            g = self.p.find(name, fr.unit)
            if g is not None:
                hints = {i: self.p.tdb[g.unit].named(t) for i, (n, t) in enumerate(g.params)}
        args = [self.ev(st, fr, a, hints.get(i) if isconst(a) else None) for i, a in enumerate(e[2])]
        if name is None:
            self.stats["externs"].add("<indirect>")
            self.unknown_call(st, fr, args)
            self.finish_call(st, fr, lhs, None)
            return None
        self.stats["sites"] += 1
        if name in self.watch:
            self.event(st, "call", (name, tuple(args)))
        m = self.models.get(name)
        if m is None and name.startswith("__builtin_"):
            m = self.models.get(name[10:])
        if m is not None:
            r = m(self, st, fr, args, e, lhs)
            if r == "noret":
                return "stop"
            if r == "inline":
                pass
            elif isinstance(r, list):
                # forked results: [(state, vid)]
                for s2, v in r:
                    self.finish_call(s2, s2.frames[-1], lhs, v)
                    work.append(s2)
                return "stop"
            else:
                self.finish_call(st, fr, lhs, r)
                return None
        f = self.p.find(name, fr.unit)
        if f is None or f.entry is None or name in self.noinline or len(st.frames) > self.DEPTH \
                or sum(1 for x in st.frames if x.f is f) > 3:
            self.stats["externs"].add(name)
            self.event(st, "extern", (name,))
            self.unknown_call(st, fr, args)
            self.finish_call(st, fr, lhs, None)
            return None
        if self.trace_calls:
            print("  " * len(st.frames), name, [st.val[a] for a in args])
        # convert arguments to parameter types
        tdb = self.p.tdb[f.unit]
        for i, (n, t) in enumerate(f.params):
            if i < len(args):
                args[i] = self.fit(st, args[i], tdb.named(t))
        self.push(st, f, args, lhs)
        return None

    def unknown_call(self, st, fr, args):
        for a in args:
            v = st.val[a]
            if isinstance(v, PV):
                if v.obj is not None:
                    self.havoc_obj(st, v.obj)


from .domain import _dop1 as _dop1_


def isconst(e):
    if e[0] in ("const", "flt"):
        return True
    if e[0] == "un" and e[2][0] in ("const", "flt"):
        return True
    return False


def off_align(off):
    """largest power-of-two-free step known for an offset"""
    a = getattr(off, "prov", None)
    if isinstance(a, tuple) and a and a[0] == "step":
        return a[1]
    return 1


def mulalign(k64, idx, es):
    if k64.single:
        return k64
    return IV(k64.w, k64.sg, k64.lo, k64.hi, k64.dj, ("step", es))


def float_of(i):
    try:
        return float(i)
    except OverflowError:
        return float("inf")


def ftof(x, w):
    if w == 32:
        import struct
        try:
            return struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError:
            return float("inf") if x > 0 else float("-inf")
    return x


def f2bits(v):
    import struct
    w = v.w
    if w not in (32, 64):
        return itop(128, False) if w == 128 else None
    if v.lo is None:
        return itop(w, False)
    def b(x):
        return int.from_bytes(struct.pack("<d" if w == 64 else "<f", x), "little")
    if v.lo == v.hi:
        return ic(w, False, b(v.lo))
    if v.lo >= 0:
        return iv(w, False, b(v.lo if v.lo > 0 else 0.0), b(v.hi))
    return itop(w, False)


def int2fbits(v, w):
    import struct
    if v.single and w in (32, 64) and v.w == w:
        f = struct.unpack("<d" if w == 64 else "<f", (v.lo & ((1 << w) - 1)).to_bytes(w // 8, "little"))[0]
        if f == f:
            return FV(w, f, f)
    return FV(w)


def dn_from_bytes(b, off):
    digits = int.from_bytes(b[off:off + 4], "little", signed=True)
    exp = int.from_bytes(b[off + 4:off + 8], "little", signed=True)
    bits = b[off + 8]
    s = bits >> 7
    if bits & 0x40:
        return DV(0, [A("inf", s)])
    if bits & 0x30:
        return DV(0, [A("qnan" if bits & 0x20 else "snan", s)])
    n = -(-digits // 3)
    c = 0
    for i in range(n - 1, -1, -1):
        c = c * 1000 + int.from_bytes(b[off + 10 + 2 * i:off + 12 + 2 * i], "little")
    if c == 0:
        return DV(0, [A("zero", s, None, None, None, (0, exp))])
    x = D(c).scaleb(exp)
    return DV(0, [fin(s, x, x, None, (c, exp))])
