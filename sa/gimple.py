"""Parser for GCC's -fdump-tree-ssa-lineno-gimple text: functions, blocks, typed SSA."""
import os, re

LOC = re.compile(r"\[(?:[^\[\]\s:]+):(\d+):(\d+)(?: discrim \d+)?\] ?|\[0:0\] ?")
LOCF = re.compile(r"\[([^\[\]\s:]+):(\d+):(\d+)(?: discrim \d+)?\]")
TOK = re.compile(r"""
   (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<num>0x[0-9a-fA-F]+[ulUL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[a-zA-Z]*)
 | (?P<id>[A-Za-z_$][\w$]*(?:\.\d\w*)*)
 | (?P<op><<|>>|<=|>=|==|!=|->|/\[ex\]|\|\||&&|[-+*/%&|^~!<>=(){}\[\],.;?:])
 | (?P<ws>\s+)
""", re.X)


class ParseError(Exception):
    pass


class Func:
    __slots__ = ("name", "unit", "rettype", "params", "attrs", "decls", "statics", "blocks", "entry",
                 "loc", "text", "static_attrs", "variadic", "_an")

    def __repr__(self):
        return "<Func %s>" % self.name


HEAD = re.compile(r"^([^\n]*?)__GIMPLE \(ssa[^)]*\)\n([^\s(]+) \((.*)\)$", re.M)


class UnitIR:
    """One dump file, indexed by function; bodies are parsed on demand."""

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.raw, self.heads, self._f = {}, {}, {}
        if os.path.exists(path):
            text = open(path, errors="replace").read()
            ms = list(HEAD.finditer(text))
            for i, m in enumerate(ms):
                end = ms[i + 1].start() if i + 1 < len(ms) else len(text)
                body = text[m.end():end]
                k = body.rfind("\n}\n")
                if k >= 0:
                    body = body[:k]
                fname = m.group(2).split("(")[0]
                # attribute lines precede the header
                pre = text[:m.start()].rstrip("\n").rsplit("\n", 1)[-1] if m.start() else ""
                attrs = pre if pre.startswith("__attribute__") else ""
                self.raw[fname] = (m.group(1).strip(), m.group(3), attrs, body)

    def names(self):
        return list(self.raw)

    def func(self, name):
        if name not in self._f:
            self._f[name] = parse_func(self.name, name, *self.raw[name])
        return self._f[name]


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_decl(s):
    """'T name' / 'T name[3]' / 'T (*name) (args)' -> (name, type text)."""
    s = s.strip()
    m = re.match(r"^(.*?)\(\*(?:<[^>]*>)?\s*(\w*)\)\s*\((.*)\)$", s, re.S)
    if m and "{" not in s:
        return m.group(2), "void *"
    m = re.match(r"^(.*?)([A-Za-z_$][\w$.]*)((?:\[[^\]]*\])*)$", s, re.S)
    if not m:
        raise ParseError("decl: " + s[:80])
    t, n, dims = m.group(1).strip(), m.group(2), m.group(3)
    # 'uint16_t[10] * _5' has the dimension inside the type already
    return n, (t + dims)


def parse_func(unit, name, rettype, params, attrs, body):
    f = Func()
    f.unit, f.name, f.attrs = unit, name, attrs
    f.rettype = re.sub(r"\b(static|extern|inline|__inline)\b", "", rettype).strip()
    f.variadic = False
    f._an = {}
    f.params = []
    for p in split_args(params):
        if p == "void":
            continue
        if p == "...":
            f.variadic = True
            continue
        f.params.append(parse_decl(p))
    m = LOCF.search(body)
    f.loc = (m.group(1), int(m.group(2))) if m else ("?", 0)
    lines = body.split("\n")
    # join lines while braces/parens are unbalanced inside one declaration/statement
    i = 0
    while i < len(lines) and not lines[i].startswith("{"):
        i += 1
    i += 1
    f.decls = {}
    f.statics = {}
    decl = ""
    depth = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("  __BB("):
            break
        if l.strip():
            decl += " " + l.strip()
            depth = decl.count("{") - decl.count("}")
            if depth == 0 and decl.rstrip().endswith(";"):
                d = decl.strip()[:-1]
                d = re.sub(r"\s*=\s*.*$", "", d) if "{" not in d else d
                try:
                    n, t = parse_decl(d)
                    if re.match(r"static\b", d):      # lives as long as the program: a unit-local global
                        f.statics[n] = re.sub(r"^static\s+", "", t)
                    else:
                        f.decls[n] = t
                except ParseError:
                    pass
                decl = ""
        i += 1
    ctx = Ctx(f)
    f.blocks = {}
    cur = None
    stmts = None
    pend = ""
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s:
            continue
        m = re.match(r"^__BB\((\d+)(?:,.*)?\):$", s)
        if m and not pend:
            cur = int(m.group(1))
            stmts = []
            f.blocks[cur] = stmts
            continue
        pend = (pend + " " + s) if pend else s
        if pend.count("{") != pend.count("}"):
            continue
        if re.match(r"^(?:\[[^\]]*\] ?)*//", pend):
            pend = ""
            continue
        lm = re.match(r"^(?:\[[^\]]*\] ?)*([A-Za-z_]\w*):(?: \[[^\]]*\])?$", pend)
        if lm:
            stmts.append(("label", lm.group(1), None))
            pend = ""
            continue
        bare = LOC.sub("", pend).strip()
        if bare.startswith("if ("):
            # if (...) / goto X; / else / goto Y;
            while i < len(lines) and pend.count("goto") < 2:
                pend += " " + lines[i].strip()
                i += 1
        elif not pend.endswith(";") and not pend.endswith("}"):
            continue
        txt, pend = pend, ""
        st = ctx.stmt(txt)
        if st is not None:
            stmts.append(st)
    f.entry = min(f.blocks) if f.blocks else None
    # label -> block
    lab = {}
    for b, ss in f.blocks.items():
        for s in ss:
            if s[0] == "label":
                lab[s[1]] = b
    for b, ss in f.blocks.items():
        nss = []
        for s in ss:
            if s[0] == "label":
                continue
            if s[0] == "switch":
                s = ("switch", s[1], lab[s[2]], [(a, c, lab[l]) for a, c, l in s[3]], s[4])
            nss.append(s)
        # fallthrough is always an explicit goto in this dump
        f.blocks[b] = nss
    return f


class Ctx:
    def __init__(self, f):
        self.f = f
        self.vars = dict(f.decls)
        for n, t in f.params:
            self.vars[n] = t
        self.cache = {}

    # -- statements ----------------------------------------------------
    def stmt(self, txt):
        m = LOCF.search(txt)
        loc = (m.group(1), int(m.group(2))) if m else None
        s = LOC.sub("", txt).strip()
        if s.startswith("goto "):
            return ("goto", int(re.match(r"goto __BB(\d+)", s).group(1)), loc)
        if s.startswith("if ("):
            m = re.match(r"^if \((.*)\)\s*goto __BB(\d+)(?:\([^)]*\))?;\s*else\s*goto __BB(\d+)(?:\([^)]*\))?;$", s, re.S)
            if not m:
                raise ParseError("if: " + s[:120])
            return ("if", self.expr(m.group(1)), int(m.group(2)), int(m.group(3)), loc)
        if s.startswith("switch ("):
            m = re.match(r"^switch \((.*?)\) \{(.*)\}$", s, re.S)
            sel = self.expr(m.group(1))
            dflt, cases = None, []
            for part in m.group(2).split(";"):
                part = part.strip()
                if not part:
                    continue
                lm = re.match(r"^default: (\w+)$", part)
                if lm:
                    dflt = lm.group(1)
                    continue
                lm = re.match(r"^case (.*): (\w+)$", part)
                c = lm.group(1)
                if " ... " in c:
                    a, b = c.split(" ... ")
                else:
                    a = b = c
                cases.append((self.const(a), self.const(b), lm.group(2)))
            return ("switch", sel, dflt, cases, loc)
        if s.startswith("return"):
            e = s[6:].rstrip(";").strip()
            return ("return", self.expr(e) if e else None, loc)
        if "CLOBBER" in s:
            m = re.match(r"^(.*?) ?=\{v\}", s)
            return ("clobber", self.expr(m.group(1)) if m else None, loc)
        m = re.match(r"^(\S+) = __PHI \((.*)\);$", s, re.S)
        if m:
            args = []
            for a in split_args(m.group(2)):
                am = re.match(r"^__BB(\d+): (.*)$", a.strip(), re.S)
                args.append((int(am.group(1)), self.expr(am.group(2))))
            return ("phi", self.expr(m.group(1)), args, loc)
        if s.startswith("__asm__") or s.startswith("asm "):
            return ("asm", s, loc)
        s = s.rstrip(";").strip()
        if not s:
            return None
        lhs, rhs = split_assign(s)
        if lhs is None:
            e = self.expr(rhs)
            if e[0] != "call":
                raise ParseError("stmt: " + s[:100])
            return ("call", None, e, loc)
        L = self.expr(lhs)
        R = self.expr(rhs)
        if R[0] == "call":
            return ("call", L, R, loc)
        return ("assign", L, R, loc)

    def const(self, s):
        e = self.expr(s.strip())
        while e[0] == "lit":
            e = e[2]
        if e[0] == "un" and e[1] == "-":
            return -e[2][1]
        if e[0] == "const":
            return e[1]
        raise ParseError("case const " + s)

    # -- expressions ----------------------------------------------------
    def expr(self, s):
        s = s.strip()
        r = self.cache.get(s)
        if r is None:
            p = P(self, s)
            r = p.top()
            self.cache[s] = r
        return r

    def name(self, tok):
        v = self.vars
        if tok in v:
            if tok.startswith("_") and tok[1:].isdigit():
                return ("ssa", tok)
            return ("var", tok)
        m = re.match(r"^(.*)_(\d+)$", tok)
        if m:
            b = m.group(1)
            if b in v or b == "":
                return ("ssa", tok)
        return ("glob", tok)


def split_assign(s):
    depth = 0
    instr = False
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if instr:
            if c == "\\":
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == "=" and depth == 0:
            if s[i:i + 2] == "==":
                i += 2
                continue
            if s[i - 1] in "<>!":
                i += 1
                continue
            rest = s[i + 1:]
            if rest.startswith("{v}"):
                rest = rest[3:]
            return s[:i].strip(), rest.strip()
        i += 1
    return None, s


BINOPS = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=",
          "/[ex]", "||", "&&"}
WORDBIN = {"__UNLT": "unlt", "__UNLE": "unle", "__UNGT": "ungt", "__UNGE": "unge",
           "__UNEQ": "uneq", "__LTGT": "ltgt", "__ORDERED": "ord", "__UNORDERED": "unord",
           "unord": "unord", "ord": "ord", "__ROTATE_LEFT": "rotl", "__ROTATE_RIGHT": "rotr",
           "__MULT_HIGHPART": "mulh"}


class P:
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.i = 0
        self.n = len(s)

    def err(self, what=""):
        raise ParseError("%s at %r in %r" % (what, self.s[self.i:self.i + 40], self.s[:160]))

    def ws(self):
        while self.i < self.n and self.s[self.i].isspace():
            self.i += 1

    def peek(self):
        self.ws()
        if self.i >= self.n:
            return None, None
        m = TOK.match(self.s, self.i)
        if not m:
            self.err("token")
        return m.lastgroup, m.group()

    def next(self):
        k, t = self.peek()
        if t is not None:
            self.i += len(t)
        return k, t

    def accept(self, t):
        k, x = self.peek()
        if x == t:
            self.i += len(t)
            return True
        return False

    def expect(self, t):
        if not self.accept(t):
            self.err("expected " + t)

    def top(self):
        if self.s.startswith("{"):
            return ("brace", self.s)
        e = self.unary()
        k, t = self.peek()
        if t is None:
            return e
        if t == "?":
            self.next()
            a = self.unary()
            self.expect(":")
            b = self.unary()
            return ("cond", e, a, b)
        if t in BINOPS or t in WORDBIN:
            self.next()
            b = self.unary()
            k2, t2 = self.peek()
            e = ("bin", WORDBIN.get(t, t), e, b)
            if t2 is None:
                return e
            if t2 == "?":
                self.next()
                a = self.unary()
                self.expect(":")
                c = self.unary()
                return ("cond", e, a, c)
        self.err("trailing")

    def typetext(self, close):
        """read a type up to the matching close character."""
        self.ws()
        depth = 0
        j = self.i
        while j < self.n:
            c = self.s[j]
            if depth == 0 and c == close and not (close == ">" and self.s[j - 1] == "-"):
                break
            if c in "(<{[":
                depth += 1
            elif c in ")>}]":
                depth -= 1
            j += 1
        t = self.s[self.i:j].strip()
        self.i = j + 1
        return t

    def looks_type(self):
        """'(' already consumed at self.i: decide whether '(T) x' is a cast."""
        depth, j = 0, self.i
        while j < self.n:
            c = self.s[j]
            if c in "({":
                depth += 1
            elif c in ")}":
                if depth == 0:
                    break
                depth -= 1
            j += 1
        inner = self.s[self.i:j].strip()
        rest = self.s[j + 1:].strip()
        if not rest or not re.match(r"[A-Za-z_$&\"\d(*\-.]", rest[0]):
            return False
        if re.match(r"^[A-Za-z_$][\w$.]*_\d+(\(D)?$", inner):
            b = inner.rsplit("_", 1)[0]
            if b in self.ctx.vars or b == "":
                return False
        if inner in self.ctx.vars:
            return False
        return bool(re.match(r"^[A-Za-z_<]", inner))

    def unary(self):
        k, t = self.peek()
        if t == "-":
            self.next()
            return ("un", "-", self.unary())
        if t == "~":
            self.next()
            return ("un", "~", self.unary())
        if t == "!":
            self.next()
            return ("un", "!", self.unary())
        if t == "&":
            self.next()
            return ("addr", self.unary())
        if t == "*":
            self.next()
            return ("deref", self.unary())
        if t == "(":
            save = self.i
            self.next()
            if self.looks_type():
                ty = self.typetext(")")
                return ("cast", ty, self.unary())
            self.i = save
        return self.postfix(self.primary())

    def primary(self):
        k, t = self.next()
        if k == "num":
            return num(t)
        if k == "str":
            v = t
            while self.peek()[0] == "str":
                v += self.next()[1]
            return ("str", v)
        if t == "(":
            e = self.unary()
            k2, t2 = self.peek()
            if t2 in BINOPS:
                self.next()
                e = ("bin", t2, e, self.unary())
            self.expect(")")
            return e
        if t in ("Inf", "Nan", "NaN", "QNaN", "SNaN"):
            return ("flt", t)
        if t == "_Literal":
            self.expect("(")
            ty = self.typetext(")")
            if self.accept("{"):
                self.typetext("}")
                return ("brace", "{}")
            return ("lit", ty, self.unary())
        if t == "__MEM":
            self.expect("<")
            ty = self.typetext(">")
            if re.search(r", \d+$", ty):
                ty = re.sub(r", \d+$", "", ty)
            self.expect("(")
            off = ("const", 0, "")
            # '(U *)p + off' or 'p' or '&x'
            p = self.unary()
            if p[0] == "cast":
                p = p[2]
            if self.accept("+"):
                off = self.unary()
            self.expect(")")
            return ("mem", ty, p, off)
        if t == "__BIT_FIELD_REF":
            self.expect("<")
            ty = self.typetext(">")
            self.expect("(")
            x = self.unary(); self.expect(",")
            a = self.unary(); self.expect(",")
            b = self.unary(); self.expect(")")
            return ("bfr", ty, x, a[1], b[1])
        if t == "__VIEW_CONVERT":
            self.expect("<")
            ty = self.typetext(">")
            self.expect("(")
            x = self.unary()
            self.expect(")")
            return ("vce", ty, x)
        if t in ("__ABS", "__ABSU"):
            x = self.unary()
            return ("un", "abs", x)
        if t in ("__MAX", "__MIN"):
            self.expect("(")
            a = self.unary(); self.expect(",")
            b = self.unary(); self.expect(")")
            return ("bin", "max" if t == "__MAX" else "min", a, b)
        if t in ("ABS_EXPR", "ABSU_EXPR"):
            self.expect("<")
            x = self.unary()
            self.expect(">")
            return ("un", "abs", x)
        if t in ("MAX_EXPR", "MIN_EXPR"):
            self.expect("<")
            a = self.unary(); self.expect(",")
            b = self.unary(); self.expect(">")
            return ("bin", "max" if t[1] == "A" else "min", a, b)
        if t == ".":
            return ("glob", "." + self.next()[1])
        if k == "id":
            e = self.ctx.name(t)
            if self.s.startswith("(D)", self.i):
                self.i += 3
                if e[0] != "ssa":
                    e = ("ssa", t)
                e = ("ssad", e[1], e[1].rsplit("_", 1)[0])
            return e
        self.err("primary %r" % (t,))

    def postfix(self, e):
        while True:
            k, t = self.peek()
            if t == ".":
                self.next()
                e = ("comp", e, self.next()[1])
            elif t is not None and k == "num" and t.startswith("."):
                self.err("numfield")
            elif t == "->":
                self.next()
                e = ("arrow", e, self.next()[1])
            elif t == "[":
                self.next()
                i = self.unary()
                self.expect("]")
                e = ("idx", e, i)
            elif t == "(" and e[0] in ("glob", "ssa", "ssad", "var"):
                self.next()
                args = []
                if not self.accept(")"):
                    while True:
                        a = self.unary()
                        k3, t3 = self.peek()
                        if t3 in BINOPS:
                            self.next()
                            a = ("bin", t3, a, self.unary())
                        args.append(a)
                        if self.accept(")"):
                            break
                        self.expect(",")
                e = ("call", e, args)
            else:
                return e


def num(t):
    m = re.match(r"^(0x[0-9a-fA-F]+|\d+)([ulUL]*)$", t)
    if m:
        return ("const", int(m.group(1), 0), m.group(2).lower())
    return ("flt", t)


if __name__ == "__main__":
    import sys, glob, time
    t0 = time.time()
    nf = 0
    errs = 0
    from collections import Counter
    kinds = Counter()
    for p in sorted(glob.glob(sys.argv[1] + "/*.gimple")):
        u = UnitIR(os.path.basename(p)[:-7], p)
        for n in u.names():
            try:
                f = u.func(n)
                nf += 1
                for b in f.blocks.values():
                    for s in b:
                        kinds[s[0]] += 1
            except Exception as e:
                errs += 1
                if errs < 40:
                    print(u.name, n, type(e).__name__, str(e)[:200])
    print(nf, "functions", errs, "errors", time.time() - t0, dict(kinds))
