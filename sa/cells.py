"""Runs one requirement cell through the interpreter and judges it."""
import time
from .models import CONTRACTS
from .domain import *
from .interp import Interp, Giveup, State
from . import ctypes_ as T
from . import spec as S

PROVED, VIOLATED, UNDECIDED = "proved", "violated", "undecided"


class Result:
    __slots__ = ("cell", "w", "verdicts", "paths", "fns", "note", "t")

    def __init__(self, cell, w):
        self.cell, self.w = cell, w
        self.verdicts = {}       # aspect -> (verdict, detail)
        self.paths = 0
        self.fns = set()
        self.note = ""
        self.t = 0.0


def setmode(mode):
    """setup: decimal rounding mode variable holds `mode` (BID code) or is unknown"""
    def s(I, st):
        o = I.global_obj("__bid_IDEC_glbround", "bid_decimal_globals")
        if mode is not None:
            I.write(st, o.id, 0, 4, I.new(st, ic(32, False, mode)))
    return s


def run_cell(prog, models, cell, w, mode=0, fname=None, limit=20.0, setup=None):
    I = Interp(prog, models)
    I.TIME = limit
    args = []
    outs = {}

    def mk(a):
        if a == "int*":
            o = I.newobj("*out", ("int", 32, True), 4, "opaque")
            outs["p"] = (o, 4, ("int", 32, True))
            return PV(o.id, 0)
        if a == "dec*":
            o = I.newobj("*out", ("dec", w), w // 8, "opaque")
            outs["p"] = (o, w // 8, ("dec", w))
            return PV(o.id, 0)
        return a
    args = [mk(a) for a in cell.args]
    name = fname or "%sd%d" % (cell.fn, w)
    f = prog.find(name)
    if f is None:
        return None, None, None
    # integer arguments take the declared type
    t0 = time.time()
    o = I.run(name, args, setup=setup or setmode(mode))
    return I, o, outs


def judge_vals(paths, fn):
    """fn(outcome) -> True (satisfied) / False (violated) / None; combine over paths"""
    allok = True
    bad = None
    nviol = 0
    for p in paths:
        r = fn(p)
        if r is True:
            continue
        allok = False
        if r is False:
            nviol += 1
            if p.level <= 1 and (bad is None or p.level < bad.level):
                bad = p
    if allok:
        return PROVED, None
    if bad is not None:
        return VIOLATED, bad
    if paths and nviol == len(paths):
        return VIOLATED, paths[0]
    return UNDECIDED, None


def match(dv, pats, args):
    if not isinstance(dv, DV):
        return None
    any_t = any_f = False
    for a in dv.atoms:
        rs = [S.pat(p, a, args) for p in pats]
        if any(r is True for r in rs):
            any_t = True
        elif any(r is None for r in rs):
            return None
        else:
            any_f = True
    if any_t and not any_f:
        return True
    if any_f and not any_t:
        return False
    return None


def undef(I, maxlevel=1):
    """verdict on undefined behaviour met on the paths of a run"""
    bad = sorted((v[0], k, v[1]) for k, v in I.defects.items() if not k[0].endswith("?") and k[0] != "wildwrite")
    if bad and bad[0][0] <= maxlevel:
        lv, (kind, fn, loc), data = bad[0]
        return VIOLATED, "%s %s in %s at %s (path level %d)" % (kind, data, fn, loc, lv)
    return (UNDECIDED, "%s in %s" % next(iter(I.defects))[:2]) if I.defects else (PROVED, None)


def judge(prog, models, cell, w, mode=0, limit=20.0):
    R = Result(cell, w)
    t0 = time.time()
    if "by_contract" in cell.extra:
        models = dict(models, **{k: CONTRACTS[k] for k in cell.extra["by_contract"]})
    try:
        I, outs, op = run_cell(prog, models, cell, w, mode, fname=cell.extra.get("fname"), limit=limit)
    except Giveup as e:
        R.note = str(e)
        I = None
        outs = None
    except RecursionError:
        R.note = "recursion"
        I = outs = None
    R.t = time.time() - t0
    if I is None:
        if outs is None and not R.note:
            R.note = "absent"
            return R
        for a in ("result", "errno", "fe"):
            R.verdicts[a] = (UNDECIDED, R.note)
        return R
    R.paths = len(outs)
    u = undef(I)
    if u is not None:
        R.verdicts["undef"] = u
    R.fns = set(I.stats["calls"])
    if not outs:
        for a in ("result", "errno", "fe"):
            R.verdicts[a] = (UNDECIDED, "no path returns")
        return R
    args = cell.args
    if cell.res is not None:
        def fr(o):
            return match(o.value(), cell.res, args)
        v, p = judge_vals(outs, fr)
        R.verdicts["result"] = (v, p and describe(p))
    if cell.intres is not None:
        lo, hi = cell.intres

        def fi(o):
            x = o.value()
            if not isinstance(x, IV):
                return None
            if lo == "nz":
                if x.lo > 0 or x.hi < 0 or icmp("==", x, ic(x.w, x.sg, 0)) is False:
                    return True
                return False if x.single else None
            if x.lo >= lo and x.hi <= hi:
                return True
            if x.hi < lo or x.lo > hi:
                return False
            return None
        v, p = judge_vals(outs, fi)
        R.verdicts["result"] = (v, p and describe(p))
    if cell.errno is not None:
        def fe(o):
            e = o.st.errno
            if e is None:
                return None in cell.errno
            if isinstance(e, IV) and e.single:
                if e.lo == 0:
                    return False
                return e.lo in cell.errno
            return None
        v, p = judge_vals(outs, fe)
        R.verdicts["errno"] = (v, p and describe(p))

    def ff(o):
        st = o.st
        # flags the function itself reports, plus those the arithmetic it performs may report
        vis_must = st.fe_must | (st.glb_must if cell.extra.get("glb") else 0)
        vis_may = st.fe_may | st.glb_may
        if cell.req & ~vis_may:
            return False
        if vis_must & cell.forbid:
            return False
        if (cell.req & ~vis_must) or (vis_may & cell.forbid):
            return None
        return True
    v, p = judge_vals(outs, ff)
    R.verdicts["fe"] = (v, p and describe(p))
    try:
        gid = I.global_obj("__bid_IDEC_glbround", "bid_decimal_globals").id
    except Exception:
        gid = None
    if gid is not None:
        after = cell.extra.get("mode_after", mode)

        def fm(x):
            c = (x.st.mem.get(gid) or {}).get(0)
            v = x.st.val[c[1]] if c else None
            if not isinstance(v, IV):
                return None
            if v.single:
                return v.lo == after
            return False if after < v.lo or after > v.hi else None
        v, p = judge_vals(outs, fm)
        R.verdicts["mode"] = (v, p and "the rounding mode is not %s: " % after + describe(p))
    for k, want in cell.outs.items():
        o, size, t = op[k]

        def fo(x):
            m = x.st.mem.get(o.id) or {}
            c = m.get(0)
            if c is None:
                return False if not m else None
            v = x.st.val[c[1]]
            if want[0] == "dec":
                if not isinstance(v, DV):
                    return None
                return match(v, [want[1]], args)
            if want[1] is None:
                return True
            if not isinstance(v, IV):
                return None
            if want[1] <= v.lo and v.hi <= want[2]:
                return True
            if v.hi < want[1] or v.lo > want[2]:
                return False
            return None
        v, p = judge_vals(outs, fo)
        R.verdicts["out"] = (v, p and describe(p))
    return R


def describe(o):
    st = o.st
    tr = []
    for x in st.trace[-8:]:
        l = x[2] if len(x) > 2 else None
        if isinstance(l, tuple):
            tr.append("%s:%s" % (l[0].rsplit("/", 1)[-1], l[1]))
    return "returns %s, errno %s, FE must=%s may=%s, path %s" % (
        o.value(), st.errno, flagnames(st.fe_must), flagnames(st.fe_may | st.glb_may), " -> ".join(tr) or "straight")


def flagnames(f):
    return "|".join(n for b, n in ((INV, "INVALID"), (DIVZ, "DIVBYZERO"), (OVER, "OVERFLOW"), (UNDER, "UNDERFLOW"), (INEX, "INEXACT")) if f & b) or "-"
