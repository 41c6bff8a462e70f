"""The installed interface: declarations, type-generic macros, constants, attributes, C++ operators."""
import os, re, shutil, subprocess, tempfile
from decimal import Decimal, Context
from .. import effects, frontend
from ..effects import walk
EXPLANATION = ("the public headers are compiled, never run, together with witnesses: the declared type of every function is compared with the "
               "standard's prototype, the type of the definition each exported name resolves to (through every alias) with the same "
               "prototype; each type-generic macro is instantiated for the six floating types and the function it ends in is read from the "
               "intermediate representation; the M_ constants are read from the assembled initialisers and compared with the mathematical "
               "constants rounded to 34 digits; no function declared const may reach a store to errno or a call that raises an exception, "
               "nor read memory through a pointer; the C++ stream operators are instantiated and each fixed buffer they hand to sprintf or "
               "read is compared with the longest text the type can produce")
RULE = ("one obligation per (function, width, declaration), (exported name, definition), (macro, type), constant, (const declaration, "
        "reachable effect) and (C++ operator, buffer or conversion)")
ASSUMPTIONS = ["gcc's type checker decides type compatibility", "the abilist of the platform names the exported functions"]

W = (32, 64, 128)
T1 = ("acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor lgamma log log10 log1p log2 logb "
      "nearbyint nextdown nextup quantum rint round roundeven sin sinh sqrt tan tanh tgamma trunc").split()
T2 = "atan2 copysign fdim fmax fmaxmag fmin fminmag fmod hypot nextafter pow quantize remainder".split()
SIG = {f: ("T", ("T",)) for f in T1}
SIG.update({f: ("T", ("T", "T")) for f in T2})
SIG.update({f: ("int", ("T",)) for f in "finite fpclassify ilogb isfinite isinf isnan isnormal issignaling signbit".split()})
SIG.update({f: ("int", ("T", "T")) for f in "isgreater isgreaterequal isless islessequal islessgreater isunordered".split()})
SIG.update({"fma": ("T", ("T", "T", "T")), "frexp": ("T", ("T", "int *")), "ldexp": ("T", ("T", "int")), "modf": ("T", ("T", "T *")),
            "nan": ("T", ("const char *",)), "nexttoward": ("T", ("T", "_Decimal128")), "scalbln": ("T", ("T", "long int")),
            "scalbn": ("T", ("T", "int")), "llogb": ("long int", ("T",)), "lrint": ("long int", ("T",)), "lround": ("long int", ("T",)),
            "llrint": ("long long int", ("T",)), "llround": ("long long int", ("T",)), "llquantexp": ("long long int", ("T",)),
            "samequantum": ("_Bool", ("T", "T")), "strtod": ("T", ("const char *", "char * *")), "wcstod": ("T", ("const wchar_t *", "wchar_t * *")),
            "strfrom": ("int", ("char *", "size_t", "const char *", "T")), "decode": ("char *", ("T", "char *"))})
# without the wide macros: not declared by the installed headers
UNDECLARED = {"decode", "signbit"}
CONSTS = {
    "M_Edl": "2.718281828459045235360287471352662497757247093699959574967", "M_LOG2Edl": "1.442695040888963407359924681001892137426645954152985934135",
    "M_LOG10Edl": "0.434294481903251827651128918916605082294397005803666566114", "M_LN2dl": "0.693147180559945309417232121458176568075500134360255254121",
    "M_LN10dl": "2.302585092994045684017991454684364207601101488628772976033", "M_PIdl": "3.141592653589793238462643383279502884197169399375105820975",
    "M_PI_2dl": "1.570796326794896619231321691639751442098584699687552910487", "M_PI_4dl": "0.785398163397448309615660845819875721049292349843776455244",
    "M_1_PIdl": "0.318309886183790671537767526745028724068919291480912897495", "M_2_PIdl": "0.636619772367581343075535053490057448137838582961825794991",
    "M_2_SQRTPIdl": "1.128379167095512573896158903121545171688101258657997713688", "M_SQRT2dl": "1.414213562373095048801688724209698078569671875376948073177",
    "M_SQRT1_2dl": "0.707106781186547524400844362104849039284835937688474036588"}
HUGE = {"HUGE_VAL_D32": "_Decimal32", "HUGE_VAL_D64": "_Decimal64", "HUGE_VAL_D128": "_Decimal128", "DEC_INFINITY": "_Decimal32", "DEC_NAN": "_Decimal32"}
PRE = "#define __STDC_WANT_DEC_FP__ 1\n#define __STDC_WANT_IEC_60559_DFP_EXT__ 1\n#define _GNU_SOURCE 1\n#include <fenv.h>\n#include <math.h>\n#include <stdlib.h>\n#include <wchar.h>\n"
# longest text of one value: sign, integer digits of the largest value, point, digits, NUL
TEXT = {4: 1 + 97 + 1 + 7 + 1, 8: 1 + 385 + 1 + 16 + 1, 16: 1 + 6145 + 1 + 34 + 1}


def norm(t):
    t = re.sub(r"\b(restrict|__restrict|__const)\b", "", t)
    return re.sub(r"\s+", " ", t).strip().replace("**", "* *")


def inst(sig, w):
    s = lambda t: t.replace("T", "_Decimal%d" % w) if re.fullmatch(r"T( \*)?", t) else t
    return s(sig[0]), [s(a) for a in sig[1]]


def gcc(tmp, name, text, extra=(), cxx=False):
    p = os.path.join(tmp, name + (".cc" if cxx else ".c"))
    with open(p, "w") as f:
        f.write(text)
    r = subprocess.run(["g++" if cxx else "gcc", "-I" + frontend.REPO + "/dfp", "-I" + frontend.REPO] + list(extra) + [p],
                       capture_output=True, text=True, cwd=tmp)
    return r


def run(ctx):
    ctx.min_obligations = 700
    tmp = tempfile.mkdtemp(prefix="verif-s15-")
    try:
        _run(ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(ctx, tmp):
    ctx.load()
    prog = ctx.prog
    E = effects.Effects(prog)
    exp = effects.exports(prog, frontend.REPO)
    # 1. definitions behind the exported names
    n = 0
    for e in exp:
        if e.startswith("__bid") or e.startswith("__dpd"):
            continue
        m = re.match(r"(?:__)?([a-z0-9]*?)d(32|64|128)$", e)
        t = E.resolve(e, None)
        if t is None:
            ctx.violate("export %s" % e, "sysdeps/x86_64/libdfp.abilist", "the exported name %s has no definition in the library" % e)
            continue
        if m and m.group(1) in ("strto", "wcsto"):
            fam = m.group(1) + "d"
        else:
            fam = m and m.group(1)
        if not m or fam not in SIG:
            ctx.ok()
            continue
        F = prog.find(t[1], t[0])
        rt, ps = inst(SIG[fam], int(m.group(2)))
        got = norm(F.rettype), [norm(x[1]) for x in F.params]
        n += 1
        if got == (rt, ps):
            ctx.ok()
        else:
            ctx.violate("definition %s" % e, "%s (%s)" % (t[1], t[0]), "%s resolves to %s %s (%s), required %s (%s)" % (e, got[0], t[1], ", ".join(got[1]), rt, ", ".join(ps)))
    ctx.cov["exported names typed"] = n
    # 2. declarations
    decl = []
    for f, sg in sorted(SIG.items()):
        if f in UNDECLARED:
            continue
        for w in W:
            rt, ps = inst(sg, w)
            decl.append(("%s%d" % (f, w) if f in ("strtod", "wcstod") else "%sd%d" % (f, w), rt, ps))
            if f == "isinf" or f == "fpclassify" or f == "isnan" or f == "isfinite" or f == "issignaling":
                decl.append(("__%sd%d" % (f, w), rt, ps))
    decl += [("__signbitd%d" % w, "int", ["_Decimal%d" % w]) for w in W]
    decl += [("fe_dec_setround", "int", ["int"]), ("fe_dec_getround", "int", ["void"])]

    text = PRE.rstrip("\n").split("\n")
    line = {}
    for i, x in enumerate(decl):
        text.append("%s (*p_%d) (%s) = %s;" % (x[1], i, ", ".join(x[2]), x[0]))
        line[len(text)] = x[0]
    r = gcc(tmp, "decl", "\n".join(text) + "\n", ["-fsyntax-only", "-Werror=incompatible-pointer-types", "-fno-builtin"])
    bad = {}
    for m in re.finditer(r"decl\.c:(\d+):\d+: error: (.*)", r.stderr):
        bad.setdefault(line.get(int(m.group(1)), "line %s" % m.group(1)), m.group(2))
    if r.returncode and not bad:
        bad["headers"] = r.stderr.strip().split("\n")[0]
    for x in decl:
        if x[0] in bad:
            ctx.violate("declaration %s" % x[0], "dfp/math.h, dfp/bits/dfp_dmathcalls.h, dfp/stdlib.h, dfp/wchar.h",
                        "%s is not declared as %s (%s): %s" % (x[0], x[1], ", ".join(x[2]), bad[x[0]]))
        else:
            ctx.ok()
    for k, v in bad.items():
        if k not in {x[0] for x in decl}:
            ctx.violate("headers %s" % k, "dfp/", v)
    # 3. type-generic macros
    types = [("_Decimal32", "d32"), ("_Decimal64", "d64"), ("_Decimal128", "d128"), ("float", "f"), ("double", ""), ("long double", "l")]
    binary = {"fpclassify": "fpclassify", "signbit": "signbit", "isfinite": "finite", "isnormal": "fpclassify", "isinf": "isinf", "isnan": "isnan", "issignaling": "issignaling"}
    text = PRE
    for mac in binary:
        for i, (t, s) in enumerate(types):
            text += "int w_%s_%d (%s x) { return %s (x); }\n" % (mac, i, t, mac)
    for k, t in HUGE.items():
        text += "_Static_assert (__builtin_types_compatible_p (__typeof__ (%s), %s), \"type of %s\");\n_Decimal128 w_%s = %s;\n" % (k, t, k, k, k)
    for k in CONSTS:
        text += "_Static_assert (__builtin_types_compatible_p (__typeof__ (%s), _Decimal128), \"type of %s\");\n_Decimal128 w_%s = %s;\n" % (k, k, k, k)
    r = gcc(tmp, "mac", text, ["-O1", "-w", "-S", "-o", "mac.s"])
    if r.returncode != 0:
        ctx.violate("macros", "dfp/math.h", "the type-generic macros or constants do not compile: " + r.stderr.strip().split("\n")[0])
    else:
        asm = open(os.path.join(tmp, "mac.s")).read()
        for mac, bn in binary.items():
            for i, (t, s) in enumerate(types):
                want = "__" + (("fpclassify" if mac == "isnormal" else mac) if s.startswith("d") else bn) + s
                body = re.search(r"^w_%s_%d:\n(.*?)\n\t\.size" % (mac, i), asm, re.M | re.S).group(1)
                got = re.findall(r"\t(?:call|jmp)\t(__?[a-z]\w*)", body)
                if got == [want] or not s.startswith("d") and got and got[0].lstrip("_").startswith(bn):
                    ctx.ok()
                else:
                    # the compiler may have expanded the test in place for the binary types
                    if not s.startswith("d") and not any(re.search(r"d(32|64|128)$", g) for g in got):
                        ctx.ok()
                    else:
                        ctx.violate("macro %s (%s)" % (mac, t), "dfp/math.h", "%s of a %s calls %s, required %s" % (mac, t, ", ".join(got) or "nothing", want))
        cx = Context(prec=34)
        for k, v in CONSTS.items():
            q = words(asm, "w_" + k)
            want = cx.create_decimal(v)
            got = bid128(q)
            if got == want:
                ctx.ok()
            else:
                ctx.violate("constant %s" % k, "dfp/math.h", "%s is %s, required %s" % (k, got, want))
        for k in HUGE:
            q = words(asm, "w_" + k)
            top = q[1] >> 58 & 31
            if top == (0x1f if k == "DEC_NAN" else 0x1e) and q[1] >> 63 == 0:
                ctx.ok()
            else:
                ctx.violate("constant %s" % k, "dfp/math.h", "%s has the encoding %016x%016x" % (k, q[1], q[0]))
    consts(ctx, tmp, prog, E)
    cxx(ctx, tmp)


def words(asm, name):
    m = re.search(r"^%s:\n((?:\t\.[a-z]+\t.*\n)+)" % name, asm, re.M)
    v = []
    for d, x in re.findall(r"\t\.(quad|long|zero)\t(-?\w+)", m.group(1)):
        k = {"quad": 8, "long": 4}.get(d)
        v += list(int(x, 0).to_bytes(k, "little", signed=x.startswith("-"))) if k else [0] * int(x)
    b = bytes(v)
    return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")


def bid128(q):
    lo, hi = q
    if hi >> 61 & 3 == 3:
        return None
    e = (hi >> 49 & 0x3fff) - 6176
    c = (hi & (1 << 49) - 1) << 64 | lo
    return Decimal(-c if hi >> 63 else c).scaleb(e, Context(prec=40))


SILENT = {"round"}          # the status it tests is never set (S03 and S08 show that it raises nothing)
MODE = {"__dfp_rounding_mode"}
RAISES = {"feraiseexcept", "__errno_location", "feupdateenv", "fesetexceptflag", "feclearexcept"}


def consts(ctx, tmp, prog, E):
    """functions declared const: a caller may merge or drop calls, so none may have an effect or read memory"""
    r = gcc(tmp, "pre", PRE, ["-E", "-P"])
    text = re.sub(r"\s+", " ", r.stdout)
    seen = 0
    for m in re.finditer(r"extern ([\w ]+?\*?) ?(\w+) \(([^;]*?)\) ?((?:__attribute__[^;]*)?);", text):
        name = m.group(2)
        k = re.match(r"(?:__)?([a-z0-9]*?)d(32|64|128)$", name)
        if not k or k.group(1) not in SIG or k.group(1) in SILENT or not re.search(r"__const__", m.group(4)):
            continue
        t = E.resolve(name, None)
        if t is None:
            continue
        seen += 1
        why = None
        reach = E.reach([t])
        for x in sorted(reach):
            for c, args, loc in E.facts[x].calls:
                if c in RAISES:
                    why = "%s (%s) calls %s" % (x[1], x[0], c)
            for g in sorted(E.facts[x].reads):
                if "glbround" in g or g in MODE:
                    why = "%s (%s) reads the rounding mode" % (x[1], x[0])
        F = prog.find(t[1], t[0])
        if why is None and F is not None and "*" in m.group(3):
            body = [x for b in F.blocks.values() for st in b for x in walk(st)]
            if any(x[0] in ("ssad", "param") and x[-1] in [q[0] for q in F.params if "*" in q[1]] for x in body):
                why = "it reads memory through its pointer argument"
        if why is None:
            ctx.ok()
        else:
            ctx.violate("const %s" % name, "dfp/bits/dfp_dmathcalls.h", "%s is declared __attribute__ ((const)), but %s: a compiler may drop or merge the call" % (name, why))
    ctx.cov["const declarations"] = seen


def cxx(ctx, tmp):
    """the C++ stream operators, one width at a time: everything instantiated serves that width"""
    for w in W:
        dump = []
        for op, text in (("<<", "void out (std::ostream &o, std::decimal::decimal%d d) { o << d; }\n" % w),
                         (">>", "void in (std::istream &i, std::decimal::decimal%d &d) { i >> d; }\n" % w)):
            r = gcc(tmp, "cx", "#define __STDC_WANT_DEC_FP__ 1\n#include <decimal/decimal>\n#include <sstream>\n" + text,
                    ["-O0", "-w", "-S", "-fdump-tree-ssa=cx.g", "-o", "cx.s"], cxx=True)
            if r.returncode != 0:
                ctx.violate("C++ operator%s decimal%d" % (op, w), "dfp/decimal/decimal", "the operator does not compile: " + r.stderr.strip().split("\n")[0])
                dump.append(None)
            else:
                dump.append(open(os.path.join(tmp, "cx.g")).read().split("\n;; Function "))
        # output: the longest value fits the buffer, and the modifier is the one of the width
        outs, ins = dump
        need, found, lits = TEXT[w // 8], 0, set()
        for p in outs or []:
            sizes = dict(re.findall(r"char (\w+)\[(\d+)\];", p))
            if "get_fmt" in p.split("\n")[0]:
                lits |= set(re.findall(r'"([A-Z]+)"', p))
            for nn, b in re.findall(r"\bs(n?)printf \(&(\w+)(?:\[0\])?,", p):
                found += 1
                if b not in sizes:
                    ctx.undec("C++ operator<< decimal%d" % w, "size of %s unknown" % b)
                elif int(sizes[b]) < need:
                    ctx.violate("C++ operator<< decimal%d buffer" % w, "dfp/decimal/decimal",
                                "s%sprintf into %s[%s], but a decimal%d in fixed notation takes up to %d characters" % (nn, b, sizes[b], w, need))
                else:
                    ctx.ok()
        if outs and not found:
            ctx.undec("C++ operator<< decimal%d" % w, "no formatting into a local array found")
        spec = {32: "H", 64: "D", 128: "DD"}[w]
        if lits == {spec}:
            ctx.ok()
        elif len(lits) == 1:
            ctx.violate("C++ modifier decimal%d" % w, "dfp/decimal/decimal", "a decimal%d is printed with the length modifier %s, required %s" % (w, lits.pop(), spec))
        elif outs:
            ctx.undec("C++ modifier decimal%d" % w, "not found: %s" % sorted(lits))
        # input: the characters read leave room for the terminator, and the right conversion is used
        conv = set()
        for p in ins or []:
            conv |= set(re.findall(r"\bstrtod(\d+)\b", p))
            sizes = dict(re.findall(r"char (\w+)\[(\d+)\];", p))
            for b, nread in re.findall(r"(?:::| )read \([^;]*?&(\w+)(?:\[0\])?, (\d+)", p):
                if b in sizes and int(nread) >= int(sizes[b]):
                    ctx.violate("C++ operator>> decimal%d buffer" % w, "dfp/decimal/decimal",
                                "up to %s characters are read into %s[%s]: no room for the terminator strtod%d looks for" % (nread, b, sizes[b], w))
                else:
                    ctx.ok()
        if conv == {str(w)}:
            ctx.ok()
        elif ins and conv:
            ctx.violate("C++ operator>> decimal%d conversion" % w, "dfp/decimal/decimal", "the operator for decimal%d converts with strtod%s" % (w, "/".join(sorted(conv))))
        elif ins:
            ctx.undec("C++ operator>> decimal%d" % w, "no conversion found")
