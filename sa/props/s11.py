from .. import effects
EXPLANATION = ("whole-program effect analysis: every store to an object with static storage duration, every place the address of a writable "
               "one is taken (followed through assignments, phis and parameters to the loads, stores and calls it reaches) and every call "
               "to a libc function is classified; no exported function other than the one that registers the printf hooks may reach a "
               "store to an object that is not thread-local, and none may reach a libc function that changes process-wide state")
RULE = ("one obligation per exported function (no store to shared storage, no process-wide libc effect reachable), per address of a writable "
        "object taken, and per writable object")
ASSUMPTIONS = ["libc functions behave as documented with respect to thread safety (attributes(7)); those that are not safe are listed in the check",
               "constructors run before any other thread exists"]
REG = {"register_printf_dfp", "__register_printf_dfp"}
# libc functions that are not thread safe or that change process-wide state
UNSAFE = set("""setlocale strtok rand srand random srandom drand48 lrand48 mrand48 srand48 localtime gmtime asctime ctime strerror getenv setenv
putenv unsetenv tmpnam localeconv mblen mbtowc wctomb mbrlen_null signal sigaction setitimer exit _exit abort atexit chdir fchdir umask
register_printf_specifier register_printf_modifier register_printf_type register_printf_function getdate ttyname hcreate hsearch hdestroy
fesetenv feupdateenv fesetround feenableexcept fedisableexcept feclearexcept fesetmode strsignal ecvt fcvt gcvt lgamma lgammaf lgammal ptsname crypt""".split())
UNSAFE -= {"abort", "exit", "_exit"}
# parameters (by index) that libc functions write through; others are only read
WRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0], "sprintf": [0],
          "snprintf": [0], "vsprintf": [0], "vsnprintf": [0], "strtol": [1], "strtoul": [1], "fread": [0], "bcopy": [1], "stpcpy": [0],
          "wcstombs": [0], "mbstowcs": [0], "wmemcpy": [0], "wmemset": [0], "wcscpy": [0], "frexp": [1], "modf": [1], "mbrtowc": [0, 3],
          "wcrtomb": [0, 2], "fegetexceptflag": [0], "fegetenv": [0], "feholdexcept": [0], "fmemopen": [0], "mbsrtowcs": [0, 1, 3],
          "wcsrtombs": [0, 1, 3], "strlcpy": [0], "mempcpy": [0], "__builtin_memcpy": [0], "__builtin_memset": [0], "__builtin_memmove": [0],
          "__builtin_strcpy": [0], "__builtin_sprintf": [0], "__builtin_stpcpy": [0]}


def flows(prog, E, key, seeds, isparam=None, depth=0, seen=None):
    """what happens to a pointer inside one function: set of (kind, detail, loc), kinds: write, leak.
    seeds(e) -> True when expression e yields the pointer itself"""
    F = prog.find(key[1], key[0])
    out = set()
    if F is None or depth > 8:
        return {("leak", "not followed further", None)}
    der = set()

    def yields(e):
        """does evaluating e give the pointer or one derived from it"""
        if not isinstance(e, tuple):
            return False
        if seeds(e):
            return True
        if e[0] in ("ssa", "ssad"):
            return e[1] in der
        if e[0] in ("mem", "deref"):
            return False
        if e[0] == "addr":
            # &p->f
            x = e[1]
            while isinstance(x, tuple) and x[0] not in ("mem", "deref", "glob", "var"):
                nx = [y for y in x[1:] if isinstance(y, tuple)]
                if not nx:
                    return False
                x = nx[0]
            if isinstance(x, tuple) and x[0] in ("mem", "deref"):
                return any(yields(y) for y in x[1:])
            return False
        if e[0] in ("bin", "cast", "conv", "un", "lit", "plus", "view"):
            if e[0] == "bin" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
                return False
            return any(yields(y) for y in e[1:])
        return any(yields(y) for y in e[1:] if isinstance(y, tuple))

    def through(lv):
        """is lv a location reached through the pointer"""
        for x in effects.walk(lv):
            if x[0] in ("mem", "deref") and any(yields(y) for y in x[1:]):
                return True
        return False
    grown = True
    while grown:
        grown = False
        for b in F.blocks.values():
            for s in b:
                if s[0] == "assign" and s[1][0] in ("ssa", "ssad") and s[1][1] not in der and yields(s[2]):
                    der.add(s[1][1])
                    grown = True
                elif s[0] == "phi" and s[1][1] not in der and any(yields(x[1]) for x in s[2]):
                    der.add(s[1][1])
                    grown = True
    for b in F.blocks.values():
        for s in b:
            loc = s[-1]
            if s[0] == "assign" and s[1][0] not in ("ssa", "ssad"):
                if through(s[1]):
                    out.add(("write", "stored through", loc))
                if yields(s[2]):
                    out.add(("leak", "the address is stored", loc))
            elif s[0] == "call":
                c = s[2]
                if s[1] is not None and s[1][0] not in ("ssa", "ssad") and through(s[1]):
                    out.add(("write", "stored through", loc))
                for i, a in enumerate(c[2]):
                    if not yields(a):
                        continue
                    n = c[1][1] if c[1][0] == "glob" else None
                    t = E.resolve(n, key[0]) if n else None
                    if t is not None:
                        k = (t, i)
                        if seen is None:
                            seen = set()
                        if k in seen:
                            continue
                        seen.add(k)
                        g = prog.find(t[1], t[0])
                        if i >= len(g.params):
                            out.add(("leak", "passed as a variable argument", loc))
                            continue
                        p = g.params[i][0]

                        def ps(e, p=p):
                            return e[0] == "ssad" and len(e) > 2 and e[2] == p and str(e[1]).endswith("(D)") or e[0] in ("param", "ssad") and len(e) > 2 and e[2] == p \
                                or e[0] == "var" and e[1] == p
                        for kd, d, l in flows(prog, E, t, ps, depth=depth + 1, seen=seen):
                            out.add((kd, "%s (in %s)" % (d, t[1]), l))
                    elif n is None:
                        out.add(("leak", "passed to an unknown function", loc))
                    elif i in WRITES.get(n, []):
                        out.add(("write", "written by %s" % n, loc))
            elif s[0] == "return" and s[1] is not None and yields(s[1]):
                out.add(("leak", "the address is returned", loc))
    return out


def run(ctx):
    ctx.load()
    prog = ctx.prog
    E = effects.Effects(prog)
    exp = effects.exports(prog)
    public = {}
    for e in exp:
        t = E.resolve(e, None)
        if t:
            public.setdefault(t, []).append(e)
    reg = set(t for t in (E.resolve(a, None) for a in REG) if t)

    def shared(name, unit):
        """is the object writable storage all threads share: True / False / None (not ours)"""
        o = prog.data(name, unit)
        if o is None:
            c = [x for k, x in prog.asm[unit]["objs"].items() if k.rsplit(".", 1)[0] == name and k.rsplit(".", 1)[-1].isdigit()]
            if c:
                return any(x.writable and not x.tls for x in c)
            return None
        return bool(o.writable and not o.tls)
    bad = {}
    for k, F in sorted(E.facts.items()):
        for n, loc in F.stores:
            sh = shared(n, k[0])
            if sh is False:
                ctx.ok()
            else:
                bad.setdefault(k, []).append(("stores to %s" % n, loc, True if sh else None if n not in ("stdout", "stderr") else True))
        objs = {}
        for n, loc, s in F.addrs:
            if shared(n, k[0]):
                objs.setdefault(n, loc)
        for n, loc in sorted(objs.items()):
            o = prog.data(n, k[0])
            if o is not None and (n in prog.unwritten() or (k[0], o.name) in prog.unwritten()):
                ctx.ok()
                continue

            def seeds(e, n=n):
                return e[0] == "addr" and effects.base(e[1]) == ("glob", n)
            r = flows(prog, E, k, seeds)
            w = sorted(x for x in r if x[0] == "write")
            if w:
                bad.setdefault(k, []).append(("writes %s: %s" % (n, w[0][1]), w[0][2] or loc, True))
            elif r:
                bad.setdefault(k, []).append(("the address of %s escapes: %s" % (n, sorted(r, key=str)[0][1]), loc, None))
            else:
                ctx.ok()
        for n, args, loc in F.calls:
            if n in UNSAFE and E.resolve(n, k[0]) is None:
                if n == "setlocale" and len(args) > 1 and _null(args[1]):
                    ctx.ok()
                    continue
                bad.setdefault(k, []).append(("calls %s" % n, loc, True))
    for t, names in sorted(public.items()):
        if t in reg:
            continue
        r = E.reach([t])
        hits = sorted(k for k in r if k in bad)
        done = False
        for h in hits:
            for what, loc, v in bad[h]:
                where = "%s:%s" % (loc[0].replace("/repo/", ""), loc[1]) if loc else h[1]
                key = "%s: %s" % (names[0], what)
                if v:
                    ctx.violate(key, where, "%s, which %s, shared by all threads (call chain %s)" % (h[1], what, E.path(t, h)))
                else:
                    ctx.undec(key, where)
                done = True
        if not done:
            ctx.ok(len(names))
        ctx.fns |= r
    # the per-thread state has to be per thread
    tls = sorted(o.name for a in prog.asm.values() for o in a["objs"].values() if o.tls)
    ctx.cov["thread_local_objects"] = tls
    ctx.cov["functions_analysed_for_effects"] = len(E.facts)
    ctx.cov["shared_writable_objects"] = sorted("%s:%s" % (u, o.name) for u, a in prog.asm.items() for o in a["objs"].values()
                                                 if o.writable and not o.tls and o.size and o.name[0] != "." and (u, o.name) not in prog.unwritten()
                                                 and o.name not in prog.unwritten() and "note" not in o.section)
    ctx.ok(len(tls))
    ctx.min_obligations = 300


def _null(a):
    from ..effects import walk
    return any(x[0] == "const" and x[1] == 0 for x in walk(a)) and not any(x[0] in ("ssa", "ssad", "addr", "str") for x in walk(a))
