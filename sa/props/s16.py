"""Resources: acquired once, released once, on every path."""
from .. import effects, typestate
EXPLANATION = ("a typestate dataflow analysis over the control flow of every function of the library that acquires a memory block, stream or locale "
               "object: on every path to a return it is released exactly once with the matching function, handed to the caller or kept; it is "
               "not used after its release, and not used before the acquisition is known to have succeeded; helper functions are summarised")
RULE = "four obligations per acquisition site: released on every path, released once, no use after release, no use of a failed acquisition"
ASSUMPTIONS = ["library functions outside the repository do not keep the pointers passed to them, except a short list",
               "newlocale (LC_ALL_MASK, \"C\", NULL) does not fail"]


def run(ctx):
    ctx.load()
    ctx.min_obligations = 150
    prog = ctx.prog
    E = effects.Effects(prog)
    T = typestate.Typestate(prog, E)
    fns = 0
    for k in sorted(E.facts):
        F = prog.find(k[1], k[0])
        if F is None:
            continue
        bad, n = T.check(F)
        if n:
            fns += 1
            ctx.ok(n - len(bad))
        for what, rel, loc, at in bad:
            where = lambda l: "%s:%s" % (l[0].replace(ctx.tree.repo + "/", "") if hasattr(ctx, "tree") else l[0], l[1]) if l else "?"
            ctx.violate("%s %s %s" % (k[0], k[1], what), where(loc), "%s (%s): the resource acquired at %s (for %s) is %s at %s" % (k[1], k[0], where(loc), rel, what, where(at)))
    ctx.cov["acquisition sites"] = T.sites
    ctx.cov["functions that acquire"] = fns
    ctx.cov["functions scanned"] = len(E.facts)
