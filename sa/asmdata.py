"""Initialised data objects, symbol attributes and aliases from compiler assembler output."""
import re


class DataObj:
    __slots__ = ("name", "unit", "section", "size", "bytes", "relocs", "glob", "align", "hidden", "local")

    def __init__(self, name, unit):
        self.name, self.unit = name, unit
        self.section, self.size = None, None
        self.bytes = bytearray()
        self.relocs = {}          # offset -> (symbol, addend)
        self.glob = self.hidden = False

    @property
    def writable(self):
        s = self.section or ""
        return not (s.startswith(".rodata") or s.startswith(".data.rel.ro") or s.startswith(".text"))

    @property
    def tls(self):
        return (self.section or "").startswith((".tdata", ".tbss"))


ESC = {"n": 10, "t": 9, "r": 13, "b": 8, "f": 12, "\\": 92, '"': 34, "v": 11, "a": 7}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 1
            c = s[i]
            if c in "01234567":
                j = i
                while j < len(s) and j < i + 3 and s[j] in "01234567":
                    j += 1
                out.append(int(s[i:j], 8) & 255)
                i = j
                continue
            out.append(ESC.get(c, ord(c)))
            i += 1
        else:
            out += c.encode("latin1", "replace") if ord(c) < 256 else c.encode()
            i += 1
    return bytes(out)


def parse_asm(unit, path):
    objs, aliases, globs, hidden, weak = {}, {}, set(), set(), set()
    versions = []
    funcs = set()
    section = ".text"
    cur = None
    types = {}
    sizes = {}
    sect_stack = []
    inits = []
    for line in open(path, errors="replace"):
        l = line.strip()
        if not l or l[0] == "#":
            continue
        if l.endswith(":") and " " not in l and "\t" not in l:
            name = l[:-1]
            if section.startswith(".text"):
                cur = None
                if types.get(name) == "function":
                    funcs.add(name)
                continue
            if name.startswith(".L") and not name.startswith(".LC"):
                # local label inside data: keep current object
                pass
            cur = DataObj(name, unit)
            cur.section = section
            objs[name] = cur
            continue
        if l[0] != ".":
            continue
        parts = l.split(None, 1)
        d, arg = parts[0], (parts[1] if len(parts) > 1 else "")
        if d == ".section":
            section = arg.split(",")[0].strip()
            cur = None
        elif d in (".data", ".text", ".bss"):
            section = d
            cur = None
        elif d == ".pushsection":
            sect_stack.append(section)
            section = arg.split(",")[0]
        elif d == ".popsection":
            section = sect_stack.pop()
        elif d in (".globl", ".global"):
            globs.add(arg)
        elif d == ".hidden":
            hidden.add(arg)
        elif d == ".weak":
            weak.add(arg)
        elif d == ".set":
            a, b = [x.strip() for x in arg.split(",", 1)]
            aliases[a] = b
        elif d == ".symver":
            versions.append(tuple(x.strip() for x in arg.split(",")))
        elif d == ".type":
            a, b = [x.strip() for x in arg.split(",", 1)]
            types[a] = b.strip("@%")
        elif d == ".size":
            a, b = [x.strip() for x in arg.split(",", 1)]
            try:
                sizes[a] = int(b, 0)
            except ValueError:
                pass
        elif d in (".comm", ".lcomm", ".local"):
            if d == ".comm":
                p = [x.strip() for x in arg.split(",")]
                o = objs.setdefault(p[0], DataObj(p[0], unit))
                o.section = ".bss"
                o.bytes = bytearray(int(p[1]))
                o.size = int(p[1])
        elif cur is not None:
            n = {".byte": 1, ".value": 2, ".short": 2, ".word": 2, ".hword": 2, ".2byte": 2, ".long": 4, ".int": 4,
                 ".4byte": 4, ".quad": 8, ".8byte": 8}.get(d)
            if n:
                for a in arg.split(","):
                    a = a.strip()
                    try:
                        v = int(a, 0)
                        cur.bytes += (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
                    except ValueError:
                        m = re.match(r"^([\w.$]+)(?:([+-]\d+))?(?:@\w+)?$", a)
                        if m:
                            cur.relocs[len(cur.bytes)] = (m.group(1), int(m.group(2) or 0))
                        cur.bytes += bytes(n)
            elif d in (".zero", ".skip", ".space"):
                cur.bytes += bytes(int(arg.split(",")[0], 0))
            elif d in (".string", ".asciz", ".string8"):
                m = re.match(r'^"(.*)"$', arg)
                cur.bytes += unescape(m.group(1)) + b"\0"
            elif d == ".ascii":
                m = re.match(r'^"(.*)"$', arg)
                cur.bytes += unescape(m.group(1))
    if True:
        for n, o in objs.items():
            o.glob = n in globs
            o.hidden = n in hidden
            if o.size is None:
                o.size = sizes.get(n, len(o.bytes))
    return {"objs": objs, "aliases": aliases, "globals": globs, "hidden": hidden, "weak": weak,
            "funcs": funcs, "symver": versions, "types": types}
