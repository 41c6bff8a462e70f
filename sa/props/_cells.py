"""Shared driver of the special-value properties: judges one aspect of every requirement cell."""
from .. import cells, spec, spec_more


def run(ctx, aspects, which="math", minimum=0, modes=(0,), select=None):
    ctx.load()
    P, M = ctx.prog, ctx.models
    jobs = []
    for w in (32, 64, 128):
        for i, c in enumerate(CELLS(which, w)):
            if select and not select(c, w) or c.extra.get("heavy") and not ctx.thorough:
                continue
            if "mode" in c.extra:
                jobs.append((which, w, i, c.extra["mode"]))
                continue
            for m in modes:
                if m and not mode_ok(c):
                    continue
                jobs.append((which, w, i, m))

    def one(j):
        which, w, i, m = j
        c = CELLS(which, w)[i]
        try:
            r = cells.judge(P, M, c, w, mode=m, limit=60.0 if ctx.thorough else 6.0)
        except Exception as e:
            import traceback
            return j, {a: ("undecided", "engine: %r" % e) for a in aspects}, set(), 0, traceback.format_exc()
        return j, r.verdicts, r.fns, r.paths, r.note
    paths = 0
    present = set()
    for j, v, fns, np, note in ctx.pmap(one, jobs):
        _, w, i, m = j
        c = CELLS(which, w)[i]
        ctx.fns |= set(fns)
        paths += np
        for a in aspects:
            if a not in v:
                continue
            verdict, det = v[a]
            key = "%sd%d(%s) %s" % (c.fn, w, c.name, a)
            if m:
                key += " mode%d" % m
            if verdict == "proved":
                ctx.ok()
                present.add((c.fn, w))
                if len(ctx.samples) < 10 and i % 97 == 0:
                    ctx.samples.append("%s required %s: holds on all %d paths" % (key, want(c, a), np))
            elif verdict == "violated":
                present.add((c.fn, w))
                ctx.violate(key, "%sd%d" % (c.fn, w), "required %s, but %s" % (want(c, a), det))
            else:
                ctx.undec(key, det or note)
    ctx.cov["paths"] = paths
    ctx.cov["cells"] = len(jobs)
    ctx.cov["entry_points"] = len(present)
    ctx.min_obligations = minimum


def want(c, a):
    if a == "result":
        return "result %s" % (c.res if c.res is not None else c.intres,)
    if a == "mode":
        return "the rounding mode to be left alone"
    if a == "errno" and c.errno is not None:
        return "errno in %s" % sorted("unchanged" if x is None else str(x) for x in c.errno)
    if a == "fe":
        return "flags including %s and none of %s" % (cells.flagnames(c.req), cells.flagnames(c.forbid))
    return "output %s" % (c.outs,)


_C = {}


def CELLS(which, w):
    k = (which, w)
    if k not in _C:
        _C[k] = getattr(spec_more, which + "_cells")(w)
    return _C[k]


def mode_ok(c):
    from ..domain import OVER
    return not (c.req & OVER) and not c.extra.get("nearest")
