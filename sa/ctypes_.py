"""Type layouts of one translation unit, from its DWARF description."""
import re

# type representation:
#   ("int", bits, signed) ("bool",) ("dec", bits) ("flt", bits) ("cplx", bytes)
#   ("ptr", T) ("arr", T, n) ("rec", tag, size, fields) ("fn",) ("void",)
# fields: list of (name, byte offset, T, bitpos|None, bitsize|None)
VOID = ("void",)


def size(t):
    k = t[0]
    if k == "int":
        return t[1] // 8
    if k == "bool":
        return 1
    if k == "dec":
        return t[1] // 8
    if k == "flt":
        return {80: 16}.get(t[1], t[1] // 8)
    if k == "ptr":
        return 8
    if k == "arr":
        return size(t[1]) * (t[2] if t[2] is not None else 0)
    if k == "rec":
        return t[2]
    if k == "cplx":
        return t[1]
    return 1


class DIE:
    __slots__ = ("tag", "at", "kids", "depth", "off")


ENTRY = re.compile(r"^ <(\d+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \((\w+)\))?")
ATTR = re.compile(r"^    <[0-9a-f]+>   (DW_AT_\w+)\s*: ?(.*)$")


def parse_dwarf(text):
    root = DIE(); root.tag = "root"; root.kids = []; root.at = {}; root.depth = -1
    stack = [root]
    byoff = {}
    cur = None
    for l in text.split("\n"):
        m = ENTRY.match(l)
        if m:
            if m.group(3) == "0":
                cur = None
                continue
            d = DIE()
            d.depth = int(m.group(1)); d.off = int(m.group(2), 16)
            d.tag = m.group(4); d.at = {}; d.kids = []
            while stack[-1].depth >= d.depth:
                stack.pop()
            stack[-1].kids.append(d)
            stack.append(d)
            byoff[d.off] = d
            cur = d
            continue
        if cur is not None:
            m = ATTR.match(l)
            if m:
                v = re.sub(r"^\((?:[a-z_]+\d*)\) ?", "", m.group(2).strip())
                a = m.group(1)
                if v.startswith("(offset:") or v.startswith("(alt"):
                    v = re.sub(r"^\(offset: [0-9a-fx]+\): ", "", v)
                if a in ("DW_AT_name", "DW_AT_linkage_name", "DW_AT_comp_dir"):
                    v = re.sub(r"^\(indirect (line )?string, offset: 0x[0-9a-f]+\): ", "", v)
                elif a == "DW_AT_type" or a == "DW_AT_specification" or a == "DW_AT_abstract_origin":
                    mm = re.match(r"<(?:0x)?([0-9a-f]+)>", v)
                    v = int(mm.group(1), 16) if mm else None
                cur.at[a] = v
    return root, byoff


def ival(v):
    v = v.split("\t")[0].split(" ")[0]
    return int(v, 0)


INTNAMES = {
    "char": 8, "signed char": 8, "unsigned char": 8, "short int": 16, "short unsigned int": 16,
    "int": 32, "unsigned int": 32, "long int": 64, "long unsigned int": 64,
    "long long int": 64, "long long unsigned int": 64, "__int128": 128, "__int128 unsigned": 128,
    "unsigned long": 64, "unsigned": 32, "signed long": 64, "long": 64, "short": 16, "short unsigned": 16,
    "unsigned short": 16, "sizetype": 64, "ssizetype": 64, "bitsizetype": 64, "long unsigned": 64,
    "unsigned long long": 64, "long long": 64,
    "char16_t": 16, "char32_t": 32, "wchar_t": 32, "char8_t": 8}
UNS = {"unsigned char", "short unsigned int", "unsigned int", "long unsigned int",
       "long long unsigned int", "__int128 unsigned", "unsigned long", "unsigned", "sizetype",
       "unsigned short", "bitsizetype", "long unsigned", "unsigned long long",
       "char16_t", "char32_t", "short unsigned", "char8_t"}


class TypeDB:
    def __init__(self, get_text):
        self._get = get_text
        self._loaded = False
        self.typedefs, self.structs, self.unions, self.enums = {}, {}, {}, {}
        self.vars, self.subs = {}, {}
        self._cache = {}
        self._name_cache = {}

    def load(self):
        if self._loaded:
            return
        self._loaded = True
        root, self.byoff = parse_dwarf(self._get())
        self.root = root

        def walk(d, depth):
            for k in d.kids:
                n = k.at.get("DW_AT_name")
                if n:
                    if k.tag == "DW_TAG_typedef":
                        self.typedefs.setdefault(n, k)
                    elif k.tag == "DW_TAG_structure_type" and "DW_AT_byte_size" in k.at:
                        self.structs.setdefault(n, k)
                    elif k.tag == "DW_TAG_union_type" and "DW_AT_byte_size" in k.at:
                        self.unions.setdefault(n, k)
                    elif k.tag == "DW_TAG_enumeration_type":
                        self.enums.setdefault(n, k)
                    elif k.tag == "DW_TAG_variable" and "DW_AT_type" in k.at:
                        # declarations of unsized arrays are completed by definitions
                        old = self.vars.get(n)
                        if old is None or "DW_AT_location" in k.at:
                            self.vars[n] = k
                    elif k.tag == "DW_TAG_subprogram":
                        old = self.subs.get(n)
                        if old is None:
                            self.subs[n] = k
                if k.tag in ("DW_TAG_compile_unit", "DW_TAG_subprogram", "DW_TAG_lexical_block",
                             "DW_TAG_structure_type", "DW_TAG_union_type"):
                    walk(k, depth + 1)
        walk(root, 0)

    def die(self, off):
        if off is None:
            return VOID
        t = self._cache.get(off)
        if t is None:
            self._cache[off] = VOID  # recursion guard (pointers break it below)
            t = self._die(self.byoff[off])
            self._cache[off] = t
        return t

    def _die(self, d):
        tag = d.tag
        ty = d.at.get("DW_AT_type")
        if tag == "DW_TAG_base_type":
            n = d.at.get("DW_AT_name", "")
            b = ival(d.at["DW_AT_byte_size"]) * 8
            enc = d.at.get("DW_AT_encoding", "")
            if "decimal" in enc or n.startswith("_Decimal"):
                return ("dec", b)
            if "boolean" in enc:
                return ("bool",)
            if "complex" in enc:
                return ("cplx", b // 8)
            if "float" in enc:
                return ("flt", 80 if n in ("long double", "_Float64x") else b)
            return ("int", b, "unsigned" not in enc and "UTF" not in enc)
        if tag in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type",
                   "DW_TAG_restrict_type", "DW_TAG_atomic_type"):
            return self.die(ty)
        if tag in ("DW_TAG_pointer_type", "DW_TAG_reference_type"):
            return ("ptr", LazyT(self, ty))
        if tag == "DW_TAG_array_type":
            dims = []
            for k in d.kids:
                if k.tag == "DW_TAG_subrange_type":
                    ub = k.at.get("DW_AT_upper_bound")
                    cnt = k.at.get("DW_AT_count")
                    try:
                        dims.append(ival(ub) + 1 if ub is not None else ival(cnt) if cnt is not None else None)
                    except ValueError:
                        dims.append(None)
            t = self.die(ty)
            for n in reversed(dims):
                t = ("arr", t, n)
            return t
        if tag in ("DW_TAG_structure_type", "DW_TAG_union_type"):
            if "DW_AT_byte_size" not in d.at:
                n = d.at.get("DW_AT_name")
                full = (self.structs if tag == "DW_TAG_structure_type" else self.unions).get(n)
                if full is not None and full is not d:
                    return self.die(full.off)
                return ("rec", n, 0, ())
            fields = []
            for k in d.kids:
                if k.tag != "DW_TAG_member":
                    continue
                ft = self.die(k.at.get("DW_AT_type"))
                off = ival(k.at["DW_AT_data_member_location"]) if "DW_AT_data_member_location" in k.at else 0
                bs = k.at.get("DW_AT_bit_size")
                if bs is not None:
                    dbo = ival(k.at.get("DW_AT_data_bit_offset", "0"))
                    fields.append((k.at.get("DW_AT_name"), 0, ft, dbo, ival(bs)))
                else:
                    fields.append((k.at.get("DW_AT_name"), off, ft, None, None))
            return ("rec", d.at.get("DW_AT_name") or ("anon%x" % d.off), ival(d.at["DW_AT_byte_size"]), tuple(fields))
        if tag == "DW_TAG_enumeration_type":
            return ("int", ival(d.at.get("DW_AT_byte_size", "4")) * 8, False)
        if tag == "DW_TAG_subroutine_type":
            return ("fn",)
        return VOID

    # ---- textual type names as printed in the dump ---------------------
    def named(self, txt):
        r = self._name_cache.get(txt)
        if r is None:
            r = self._named(txt)
            self._name_cache[txt] = r
        return r

    def _named(self, txt):
        t = re.sub(r"\b(const|volatile|restrict|__restrict|register|static|extern)\b", " ", txt)
        t = re.sub(r"\{ref-all\}", "", t)
        t = re.sub(r"\s+", " ", t).strip()
        if "{" in t:
            return self._inline(t)
        m = re.match(r"^(.*?)((?:\[[^\]]*\])+)( ?\*+)?$", t)
        if m and "*" not in (m.group(3) or ""):
            base = self.named(m.group(1))
            for d in reversed(re.findall(r"\[([^\]]*)\]", m.group(2))):
                d = d.strip()
                mm = re.match(r"^(\d+)", d)
                base = ("arr", base, int(mm.group(1)) if mm else None)
            return base
        if t.endswith("*"):
            inner = t[:-1].strip()
            return ("ptr", LazyN(self, inner))
        if "(*" in t:
            return ("ptr", VOID)
        m = re.match(r"^<unnamed-(signed|unsigned):(\d+)>$", t)
        if m:
            return ("int", int(m.group(2)), m.group(1) == "signed")
        if t in INTNAMES:
            return ("int", INTNAMES[t], t not in UNS)
        if t in ("_Bool", "bool"):
            return ("bool",)
        if t == "void":
            return VOID
        m = re.match(r"^_Decimal(32|64|128)$", t)
        if m:
            return ("dec", int(m.group(1)))
        if t in ("double", "float", "long double", "_Float128", "__float128", "_Float64x", "_Float32", "_Float64",
                 "_Float32x"):
            return ("flt", {"double": 64, "float": 32, "long double": 80, "_Float128": 128,
                            "__float128": 128, "_Float64x": 80, "_Float32": 32, "_Float64": 64,
                            "_Float32x": 64}[t])
        m = re.match(r"^(?:u?int)(8|16|32|64)_t$", t)
        if m:
            return ("int", int(m.group(1)), not t.startswith("u"))
        self.load()
        if t.startswith("struct "):
            d = self.structs.get(t[7:])
            if d is None:
                d2 = self.typedefs.get(t[7:])   # anonymous struct printed by its typedef name
                return self.die(d2.off) if d2 is not None else ("rec", t[7:], 0, ())
            return self.die(d.off)
        if t.startswith("union "):
            d = self.unions.get(t[6:])
            if d is None:
                d2 = self.typedefs.get(t[6:])
                return self.die(d2.off) if d2 is not None else ("rec", t[6:], 0, ())
            return self.die(d.off)
        if t.startswith("enum "):
            return ("int", 32, False)
        d = self.typedefs.get(t)
        if d is not None:
            return self.die(d.off)
        if t in self.structs:
            return self.die(self.structs[t].off)
        if t in self.unions:
            return self.die(self.unions[t].off)
        if t in self.enums:
            return self.die(self.enums[t].off)
        return VOID

    def _inline(self, t):
        """'union { T a; struct {...} b; }' printed in place of an anonymous type."""
        tail = ""
        k = t.rindex("}")
        tail = t[k + 1:].strip()
        m = re.match(r"^(struct|union)\s*\{", t)
        if not m:
            return VOID
        isu = m.group(1) == "union"
        body = t[m.end():k]
        parts, depth, cur = [], 0, ""
        for c in body:
            if c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
            if c == ";" and depth == 0:
                parts.append(cur.strip()); cur = ""
            else:
                cur += c
        off_bits, align, sz, fields = 0, 8, 0, []
        for p in parts:
            if not p:
                continue
            m2 = re.match(r"^(.*?)([A-Za-z_]\w*)((?:\[[^\]]*\])*)$", p, re.S)
            bt, fn, dims = m2.group(1).strip(), m2.group(2), m2.group(3)
            ft = self.named(bt + dims)
            mb = re.match(r"^<unnamed-(?:signed|unsigned):(\d+)>$", bt)
            if mb:
                bs = int(mb.group(1))
                pos = 0 if isu else off_bits
                fields.append((fn, 0, ft, pos, bs))
                if isu:
                    sz = max(sz, (bs + 7) // 8)
                else:
                    off_bits += bs
                continue
            s = size(ft)
            al = self.align(ft)
            align = max(align, al * 8)
            if isu:
                fields.append((fn, 0, ft, None, None))
                sz = max(sz, s)
            else:
                o = -(-off_bits // (al * 8)) * al
                fields.append((fn, o, ft, None, None))
                off_bits = (o + s) * 8
        if not isu:
            sz = (off_bits + 7) // 8
        sz = -(-sz * 8 // align) * align // 8
        r = ("rec", "inline", sz, tuple(fields))
        for _ in range(tail.count("*")):
            r = ("ptr", r)
        return r

    def align(self, t):
        if t[0] == "arr":
            return self.align(t[1])
        if t[0] == "rec":
            return max([self.align(f[2]) for f in t[3]] or [1])
        return max(1, min(16, size(t)))

    def var(self, name):
        self.load()
        d = self.vars.get(name)
        if d is None:
            return None
        return self.die(d.at["DW_AT_type"])

    def sub(self, name):
        """(ret, [params], variadic) of a declared function."""
        self.load()
        d = self.subs.get(name)
        if d is None:
            return None
        if "DW_AT_specification" in d.at or "DW_AT_abstract_origin" in d.at:
            d2 = self.byoff.get(d.at.get("DW_AT_specification") or d.at.get("DW_AT_abstract_origin"))
            if d2 is not None and d2.at.get("DW_AT_type") is not None:
                d = d2
        ps, va = [], False
        for k in d.kids:
            if k.tag == "DW_TAG_formal_parameter":
                ps.append(self.die(k.at.get("DW_AT_type")))
            elif k.tag == "DW_TAG_unspecified_parameters":
                va = True
        return (self.die(d.at.get("DW_AT_type")), ps, va)


class LazyT:
    def __init__(self, db, off):
        self.db, self.off = db, off

    def get(self):
        return self.db.die(self.off)


class LazyN:
    def __init__(self, db, n):
        self.db, self.n = db, n

    def get(self):
        return self.db.named(self.n)


def target(pt):
    t = pt[1] if pt[0] == "ptr" else VOID
    while isinstance(t, (LazyT, LazyN)):
        t = t.get()
    return t
