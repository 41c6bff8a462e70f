#!/usr/bin/env python3
"""Development aid (not a check): runs the real library on sample points of every requirement
cell and compares with the requirement, to validate the analysis' verdicts both ways.
usage: replay_cells.py [lib] > table     lines: w fn cell aspect ok|bad detail"""
import sys, os, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from decimal import Decimal as D
import decimal
from sa import spec
from sa.domain import *
decimal.getcontext().prec = 60
decimal.getcontext().Emax = 999999
decimal.getcontext().Emin = -999999
INT = ("ilogb", "llogb")
SUF = {32: "DF", 64: "DD", 128: "DL"}


def lit(a, w, hi=False):
    s = SUF[w]
    sg = "-" if a.sign else ""
    if a.kind == "inf":
        return "%s__builtin_infd%d()" % (sg, w)
    if a.kind == "zero":
        return "%s0e0%s" % (sg, s) if a.sign else "0e0" + s
    if a.kind == "qnan":
        return "%s__builtin_nand%d(\"\")" % (sg, w)
    if a.kind == "snan":
        return "%ssnan%d()" % (sg, w)
    v = a.hi if hi else a.lo
    ctx = decimal.Context(prec=FMT[w].p, rounding=decimal.ROUND_DOWN if hi else decimal.ROUND_UP, Emax=999999, Emin=-999999)
    v = ctx.plus(D(v))
    return "%s%sE%d%s" % (sg, "".join(map(str, v.as_tuple().digits)), v.as_tuple().exponent, s)


def main():
    lib = sys.argv[1] if len(sys.argv) > 1 else "/repo/_build/libdfp.so"
    src = ["""#include <stdio.h>
#include <errno.h>
#include <fenv.h>
#include <math.h>
#include <string.h>
#include <stdint.h>
#define X(w) _Decimal##w fmaxmagd##w(_Decimal##w,_Decimal##w);_Decimal##w fminmagd##w(_Decimal##w,_Decimal##w);_Decimal##w nextupd##w(_Decimal##w);_Decimal##w nextdownd##w(_Decimal##w);_Decimal##w roundevend##w(_Decimal##w); long llogbd##w(_Decimal##w);
X(32) X(64) X(128)
static _Decimal32 snan32(void){uint32_t x=0x7e000000u;_Decimal32 d;memcpy(&d,&x,4);return d;}
static _Decimal64 snan64(void){uint64_t x=0x7e00000000000000ull;_Decimal64 d;memcpy(&d,&x,8);return d;}
static _Decimal128 snan128(void){unsigned __int128 x=((unsigned __int128)0x7e00000000000000ull)<<64;_Decimal128 d;memcpy(&d,&x,16);return d;}
static void show128(const char*p,_Decimal128 d){unsigned __int128 x;memcpy(&x,&d,16);printf(" %s128:%016llx%016llx",p,(unsigned long long)(x>>64),(unsigned long long)x);}
static void show64(const char*p,_Decimal64 d){unsigned long long x;memcpy(&x,&d,8);printf(" %s64:%016llx",p,x);}
static void show32(const char*p,_Decimal32 d){unsigned x;memcpy(&x,&d,4);printf(" %s32:%08x",p,x);}
"""]
    main_ = ["int main(){"]
    jobs = []
    for w in (64, 32, 128):
        for ci, c in enumerate(spec.math_cells(w)):
            if c.extra.get("fname"):
                continue
            for hi in (False, True):
                if hi and not any(isinstance(a, DV) and a.atoms[0].kind == "fin" and a.atoms[0].lo != a.atoms[0].hi or
                                  isinstance(a, IV) and not a.single for a in c.args):
                    continue
                n = len(jobs)
                jobs.append((w, ci, hi))
                args = []
                out = ""
                pre = ""
                for a in c.args:
                    if isinstance(a, DV):
                        pre += "volatile _Decimal%d a%d=%s;" % (w, len(args), lit(a.atoms[0], w, hi))
                        args.append("a%d" % len(args))
                    elif isinstance(a, IV):
                        args.append(("%dL" % (a.hi if hi else a.lo)))
                    elif a == "int*":
                        pre += "int o=-12345;"
                        args.append("&o")
                        out = 'printf(" o:%d",o);'
                    elif a == "dec*":
                        pre += "_Decimal%d o=-12345.0%s;" % (w, SUF[w])
                        args.append("&o")
                        out = 'show%d("o",o);' % w
                ret = "int" if c.fn == "ilogb" else "long" if c.fn == "llogb" else "_Decimal%d" % w
                showc = 'printf(" i:%ld",(long)r);' if c.fn in INT else 'show%d("r",r);' % w
                src.append("static void t%d(void){%s feclearexcept(FE_ALL_EXCEPT);errno=0;%s r=%sd%d(%s);int e=errno,f=fetestexcept(FE_ALL_EXCEPT);printf(\"%d %%d %%d\",e,f);%s%sprintf(\"\\n\");fflush(stdout);}" % (
                    n, pre, ret, c.fn, w, ",".join(args), n, showc, out))
                main_.append("t%d();" % n)
    src += main_ + ["return 0;}"]
    d = tempfile.mkdtemp()
    open(d + "/a.c", "w").write("\n".join(src))
    subprocess.check_call(["gcc", "-w", "-O0", "-D__STDC_WANT_DEC_FP__=1", "-I/repo/dfp", "-I/repo", d + "/a.c", "-o", d + "/a", lib, "-lm"])
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.dirname(lib))
    out = subprocess.run(["timeout", "300", d + "/a"], env=env, capture_output=True, text=True)
    subprocess.call(["rm", "-rf", d])
    if out.returncode:
        print("#exit", out.returncode, out.stderr[-300:])
    for l in out.stdout.split("\n"):
        p = l.split()
        if len(p) < 3:
            continue
        w, ci, hi = jobs[int(p[0])]
        c = spec.math_cells(w)[ci] if False else CELLS(w)[ci]
        e, f = int(p[1]), int(p[2])
        fl = (INV if f & 1 else 0) | (DIVZ if f & 4 else 0) | (OVER if f & 8 else 0) | (UNDER if f & 16 else 0) | (INEX if f & 32 else 0)
        r = None
        for q in p[3:]:
            k, v = q.split(":")
            if k[0] == "r":
                r = dec(v, w)
            elif k == "i":
                r = int(v)
            elif k == "o":
                r_o = int(v)
            else:
                r_o = dec(v, w)
        args = c.args
        pt = []
        for a in c.args:   # the actual argument point
            if isinstance(a, DV) and a.atoms[0].kind == "fin":
                x = a.atoms[0]
                vv = x.hi if hi else x.lo
                ctx = decimal.Context(prec=FMT[w].p, rounding=decimal.ROUND_DOWN if hi else decimal.ROUND_UP, Emax=999999, Emin=-999999)
                vv = ctx.plus(D(vv))
                pt.append(DV(w, [fin(x.sign, vv, vv)]))
            else:
                pt.append(a)
        def pr(asp, ok, det=""):
            print(w, c.fn, c.name.replace(" ", ""), asp, "ok" if ok else "bad", "%s r=%s errno=%d fe=%s" % (det, show(r) if isinstance(r, Atom) else r, e, fl))
        if c.res is not None:
            pr("result", any(spec.pat(p_, r, pt) is True for p_ in c.res))
        if c.intres is not None:
            pr("result", c.intres[0] <= r <= c.intres[1])
        if c.errno is not None:
            pr("errno", (e == 0 and None in c.errno) or (e != 0 and e in c.errno))
        pr("fe", not (c.req & ~fl) and not (c.forbid & fl))
        for k, want in c.outs.items():
            if want[0] == "dec":
                pr("out", spec.pat(want[1], r_o, pt) is True, show(r_o))
            else:
                pr("out", want[1] is None or want[1] <= r_o <= want[2], r_o)


_c = {}


def CELLS(w):
    if w not in _c:
        _c[w] = spec.math_cells(w)
    return _c[w]


def dec(h, w):
    x = int(h, 16)
    s = x >> (w - 1)
    nb = {32: 8, 64: 10, 128: 14}[w]
    bias = {32: 101, 64: 398, 128: 6176}[w]
    top5 = (x >> (w - 6)) & 31
    if top5 == 31:
        return A("snan" if (x >> (w - 7)) & 1 else "qnan", s)
    if top5 == 30:
        return A("inf", s)
    if (x >> (w - 3)) & 3 == 3:
        e = (x >> (w - 3 - nb)) & ((1 << nb) - 1)
        c = (x & ((1 << (w - 3 - nb)) - 1)) | (8 << (w - 3 - nb - 0)) if False else ((x & ((1 << (w - 3 - nb)) - 1)) | (1 << (w - nb)))
        if w == 32:
            c = (x & ((1 << 21) - 1)) | (4 << 21)
        elif w == 64:
            c = (x & ((1 << 51) - 1)) | (4 << 51)
        else:
            c = 0
    else:
        e = (x >> (w - 1 - nb)) & ((1 << nb) - 1)
        c = x & ((1 << (w - 1 - nb)) - 1)
    if c >= 10 ** FMT[w].p:
        c = 0
    if c == 0:
        return A("zero", s)
    v = D(c).scaleb(e - bias)
    return fin(s, v, v)


main()
