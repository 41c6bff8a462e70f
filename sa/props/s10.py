import os, subprocess, tempfile
from . import _cells
from .s01 import ASSUMPTIONS as _A
from .. import effects, toprun, interp
from ..domain import IV
EXPLANATION = ("fe_dec_setround and fe_dec_getround are interpreted for every request in every mode, the FE_DEC_ macros are fixed by "
               "compile-time assertions against the public header; a whole-program effect analysis finds every function that can store to "
               "the mode variable, and each function that reaches such a store is interpreted on unconstrained arguments in all five modes "
               "to show that every path that returns has put the mode back; every math cell is interpreted in a non-default mode and the "
               "mode is compared at each return; exact functions (nextafter, nexttoward, nextup, nextdown, frexp, modf, ilogb, fmax, "
               "copysign, ...) and special operands give the same results in all five modes")
RULE = ("one obligation per (request, mode), per (function reaching a store to the mode, mode), per exported function (no unverified "
        "store reachable), and per (function, width, mode, operand class, aspect)")
ASSUMPTIONS = _A
VAR = "__bid_IDEC_glbround"
API = {"fe_dec_setround", "__fe_dec_setround", "__dfp_set_round"}

WITNESS = r'''
#define __STDC_WANT_DEC_FP__ 1
#include <dfp/fenv.h>
_Static_assert (FE_DEC_TONEAREST == 0, "FE_DEC_TONEAREST");
_Static_assert (FE_DEC_TOWARDZERO == 1, "FE_DEC_TOWARDZERO");
_Static_assert (FE_DEC_UPWARD == 2, "FE_DEC_UPWARD");
_Static_assert (FE_DEC_DOWNWARD == 3, "FE_DEC_DOWNWARD");
_Static_assert (FE_DEC_TONEARESTFROMZERO == 4, "FE_DEC_TONEARESTFROMZERO");
static int (*s) (int) = fe_dec_setround;
static int (*g) (void) = fe_dec_getround;
int use (void) { return s (0) + g (); }
'''


def readonly_param(prog, E, key, idx, depth=0):
    """True when the function only reads through its idx-th pointer parameter"""
    F = prog.find(key[1], key[0])
    if F is None or idx >= len(F.params) or depth > 6:
        return False
    p = F.params[idx][0]
    der = set()
    grown = True

    def mentions(e):
        return any(x[0] == "ssad" and len(x) > 2 and x[2] == p or x[0] == "param" and x[1] == p or x[0] in ("ssa", "ssad") and x[1] in der or x[0] == "var" and x[1] == p
                   for x in effects.walk(e))
    while grown:
        grown = False
        for b in F.blocks.values():
            for s in b:
                if s[0] == "assign" and s[1][0] in ("ssa", "ssad") and mentions(s[2]) and s[2][0] not in ("mem", "deref"):
                    if s[1][1] not in der:
                        der.add(s[1][1])
                        grown = True
                elif s[0] == "phi" and any(mentions(x[1]) for x in s[2]) and s[1][1] not in der:
                    der.add(s[1][1])
                    grown = True
    for b in F.blocks.values():
        for s in b:
            if s[0] == "assign" and s[1][0] not in ("ssa", "ssad"):
                if mentions(s[1]) or mentions(s[2]) and s[2][0] not in ("mem", "deref"):
                    return False
            elif s[0] == "call":
                if s[1] is not None and s[1][0] not in ("ssa", "ssad") and mentions(s[1]):
                    return False
                c = s[2]
                for i, a in enumerate(c[2]):
                    if mentions(a) and a[0] not in ("mem", "deref"):
                        t = E.resolve(c[1][1], key[0]) if c[1][0] == "glob" else None
                        if t is None or not readonly_param(prog, E, t, i, depth + 1):
                            return False
            elif s[0] == "return" and s[1] is not None and mentions(s[1]):
                return False
    return True


def run(ctx):
    ctx.load()
    prog, models = ctx.prog, ctx.models
    E = effects.Effects(prog)
    exp = effects.exports(prog)
    # 1. stores and escapes
    writers, doubtful = {}, {}
    for k, F in E.facts.items():
        for n, loc in F.stores:
            if n == VAR:
                writers.setdefault(k, loc)
        for n, loc, s in F.addrs:
            if n != VAR:
                continue
            okk = False
            if s[0] == "call":
                c = s[2]
                okk = True
                for i, a in enumerate(c[2]):
                    if any(x[0] == "addr" and effects.base(x[1]) == ("glob", VAR) for x in effects.walk(a)):
                        t = E.resolve(c[1][1], k[0]) if c[1][0] == "glob" else None
                        okk = okk and t is not None and readonly_param(prog, E, t, i)
            elif s[0] == "assign":
                okk = s[2][0] == "mem"
            if okk:
                ctx.ok()
            else:
                doubtful.setdefault(k, loc)
    # 2. functions through which a store can be reached, innermost first
    public = {}
    for e in exp:
        t = E.resolve(e, None)
        if t:
            public.setdefault(t, []).append(e)
    api = set(t for t in (E.resolve(a, None) for a in API) if t)
    bad = set(writers) | set(doubtful)
    done = {}

    def classify(k):
        """-> per mode: (preserved?, detail)"""
        out = {}
        for m in range(5):
            try:
                I, os_ = toprun.run(prog, models, k[1], mode=m, limit=60.0 if ctx.thorough else 20.0, unit=k[0])
                g = I.global_obj(VAR, "bid_decimal_globals").id
                r, det = True, ""
                for o in os_:
                    c = (o.st.mem.get(g) or {}).get(0)
                    v = o.st.val[c[1]] if c else None
                    if isinstance(v, IV) and v.single:
                        if v.lo != m:
                            r, det = False, "it can return with the mode changed from %d to %d: %s" % (m, v.lo, _trace(o))
                            break
                    else:
                        r, det = None, "mode unknown at a return"
                out[m] = (r if os_ else None, det, set(I.stats["calls"]))
            except interp.Giveup as x:
                out[m] = (None, str(x), set())
            except Exception as x:
                out[m] = (None, "engine: %r" % x, set())
        return out
    for a in api:
        if E.callees(a)[0] & bad:
            bad.add(a)
    while True:
        todo = sorted(c for c in E.facts if c not in api and c not in done and (c in writers or c in doubtful or E.callees(c)[0] & bad))
        if not todo:
            break
        for c, res in zip(todo, ctx.pmap(classify, todo, chunk=1)):
            done[c] = {m: x[:2] for m, x in res.items()}
            for x in res.values():
                ctx.fns |= x[2]
            if all(r is True for r, _ in done[c].values()):
                bad.discard(c)
            elif c not in public:
                bad.add(c)
            if c in public:
                for m, (r, det) in sorted(done[c].items()):
                    key = "preserves:%s mode%d" % (public[c][0], m)
                    if r is True:
                        ctx.ok()
                    elif r is False:
                        ctx.violate(key, "%s (%s)" % (c[1], c[0]), det)
                    else:
                        ctx.undec(key, det)
    # 3. every other exported function reaches a store only through functions shown to put the mode back
    stop = set(c for c in done if c not in bad)
    for t, names in sorted(public.items()):
        if t in api or t in done:
            continue
        r = E.reach([t], stop=stop)
        hit = [w for w in r if w in bad]
        key = "reaches:%s" % names[0]
        if hit:
            ctx.undec(key, "can reach the store in %s" % hit[0][1])
        else:
            ctx.ok(len(names))
    ctx.cov["functions_storing_the_mode"] = ["%s:%s" % k for k in sorted(writers)]
    ctx.cov["functions_restoring_the_mode"] = ["%s:%s" % k for k in sorted(stop)]
    # 4. the public constants
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "w.c")
        open(p, "w").write(WITNESS)
        r = subprocess.run(["gcc", "-fsyntax-only", "-I/repo/dfp", "-I/repo", p], capture_output=True, text=True)
        if r.returncode == 0:
            ctx.ok(7)
        else:
            ctx.violate("constants", "dfp/fenv.h", r.stderr.strip().split("\n")[0][:300])
    _cells.run(ctx, ("result", "mode"), which="modeapi")
    _cells.run(ctx, ("result", "errno", "fe", "out", "mode"), which="mode")
    ctx.min_obligations = 60000


def _trace(o):
    return " -> ".join("%s:%s" % (x[2][0].rsplit("/", 1)[-1], x[2][1]) for x in o.st.trace[-6:] if len(x) > 2 and isinstance(x[2], tuple)) or "straight path"
