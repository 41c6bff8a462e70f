import collections
from . import _cells
from .s01 import ASSUMPTIONS as _A
from .. import effects, toprun, interp, initflow, cells
EXPLANATION = ("every class of operands of the math, arithmetic, comparison, conversion, rounding and rounding-mode tables is interpreted and "
               "each memory access, array index and shift on each path is checked; every exported function is interpreted on unconstrained "
               "arguments; and in every function of the library a definite-initialisation dataflow analysis checks each read of a local")
RULE = ("one obligation per (function, class of operands): no path reads an object nothing wrote, accesses outside an object, stores to a "
        "constant, follows a null pointer, divides by zero or shifts a nonzero value by its width or more; one per exported function on "
        "unconstrained arguments; one per read of a local (function, variable, location)")
ASSUMPTIONS = _A + ["callers pass valid pointers", "an access whose index the abstraction cannot bound is undecided, not an alarm"]
TABLES = ("math", "class", "mode", "modeapi", "conv", "round", "compare", "arith", "near")
KINDS = {"oob": "access outside the object", "uninit": "read of something never written", "nullderef": "null pointer followed",
         "constwrite": "store to a constant", "shift": "shift by the width or more", "divzero": "division by zero"}


def run(ctx):
    ctx.load()
    prog, models = ctx.prog, ctx.models
    E = effects.Effects(prog)
    cov = collections.Counter()
    # 1. definite initialisation, every function
    ini = initflow.Init(prog, E)
    nf = 0
    for u, ir in sorted(prog.irs.items()):
        for n in ir.raw:
            F = ir.func(n)
            nf += 1
            before = ini.nobl
            bad = ini.check(F)
            ctx.ok(ini.nobl - before - len(bad))
            for v, how, loc in bad:
                ctx.violate("%s: %s read before any write (%s)" % (n, v, how), "%s (%s)" % (n, u),
                            "%s of local %s used at %s:%s although no path to there writes it" % (how, v, loc and loc[0], loc and loc[1]))
    cov["functions under definite-initialisation analysis"] = nf
    cov["reads of locals"] = ini.nobl
    # 2. exported functions on unconstrained arguments
    seen, jobs = {}, []
    for e in effects.exports(prog):
        t = E.resolve(e, None)
        if t and t not in seen:
            seen[t] = e
            jobs.append(("top", e, 0, 0))
    # 3. the operand classes
    for which in TABLES:
        for w in (32, 64, 128):
            for i, c in enumerate(_cells.CELLS(which, w)):
                if c.extra.get("heavy") and not ctx.thorough:
                    continue
                if not ctx.thorough and (c.extra.get("mode", 0) not in (0, 1) or c.extra.get("near") == "w" or c.extra.get("near") == "n" and i % 6):
                    continue
                jobs.append((which, w, i, c.extra.get("mode", 0)))

    def one(j):
        which, w, i, m = j
        if which == "top":
            h = []
            try:
                I, o = toprun.run(prog, models, w, limit=60 if ctx.thorough else 12, hold=h)
                return j, cells.undef(I, 0), len(o), set(I.stats["calls"])
            except interp.Giveup as x:
                v = cells.undef(h[0], 0) if h else None
                return j, v if v and v[0] == "violated" else ("undecided", "not explored completely: %s" % x), 0, set()
            except Exception as x:
                return j, ("undecided", "engine: %r" % x), 0, set()
        c = _cells.CELLS(which, w)[i]
        try:
            r = cells.judge(prog, models, c, w, mode=m, limit=60.0 if ctx.thorough else 6.0)
        except Exception as x:
            return j, ("undecided", "engine: %r" % x), 0, set()
        return j, r.verdicts.get("undef"), r.paths, r.fns
    for j, v, np, fns in ctx.pmap(one, jobs):
        which, w, i, m = j
        ctx.fns |= set(fns)
        cov["paths"] += np
        if which == "top":
            key, where = "%s(anything)" % w, w
            cov["exported functions on unconstrained arguments"] += 1
        else:
            c = _cells.CELLS(which, w)[i]
            where = c.extra.get("fname") or "%sd%d" % (c.fn, w)
            key = "%s(%s)%s" % (where, c.name, " mode%d" % m if m else "")
            cov["operand classes"] += 1
        if v is None:
            continue
        if v[0] == "proved":
            ctx.ok()
            if which == "top" and len(ctx.samples) < 10 and len(w) % 3 == 0:
                ctx.samples.append("%s: all %d paths on unconstrained arguments read only what was written, inside its bounds" % (w, np))
        elif v[0] == "violated":
            # the same defect is met from many entry points: identify it by its site
            kind, rest = v[1].split(" ", 1)
            ctx.violate("%s %s" % (kind, rest.split(" (path")[0]), where, "%s: %s; reached from %s" % (KINDS.get(kind, kind), v[1], key))
        else:
            ctx.undec(key, v[1])
    ctx.cov.update(cov)
    ctx.min_obligations = 200000
