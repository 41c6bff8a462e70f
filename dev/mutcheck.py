"""Development aid (see mutate.py): runs every cell whose entry point reaches the changed units, all aspects."""
import sys, os, re, subprocess, collections, glob, pickle, json
sys.path.insert(0, "/verif")
from sa import frontend, interp, models, cells, spec_more, effects
from multiprocessing import Pool
keep, changed = sys.argv[1], sys.argv[2]
base = "/tmp/w/keep"
if not os.path.exists(keep):
    subprocess.run(["cp", "-a", base, keep])
    for f in glob.glob(keep + "/bld/Makefile"):
        pass
t = frontend.Tree(keep=base)
r = subprocess.run(["make", "-n", "-B", "-k", "all"], cwd=t.bld, env=t._env(), capture_output=True, text=True)
t._parse_cmds(r.stdout)
stem = os.path.basename(changed)
# units that include the file
aff = set()
for d in glob.glob("/repo/_build/*.d") + glob.glob("/repo/_build/libdecnumber/.deps/*"):
    try:
        if "/" + stem in open(d).read():
            aff.add(os.path.basename(d)[:-2])
    except Exception:
        pass
names = [n for n, u in t.units.items() if n in aff or n.split("/")[-1] in aff or os.path.basename(u.src) == stem]
for n, u in t.units.items():
    b = os.path.join(t.out, n.replace("/", "__"))
    u.dump, u.asm = b + ".gimple", b + ".s"
own = os.path.join("/tmp/w/mut", "own%d" % os.getpid())
os.makedirs(own)
t2 = t
oldout = base_out = t.out
t.out = own
t.compile_all(names)
t.out = own
for f in os.listdir(oldout):
    if f.endswith(".dwarf") and not any(f == n.replace("/", "__") + ".dwarf" for n in names):
        os.symlink(os.path.join(oldout, f), os.path.join(own, f))
P = interp.Program(t)
M = models.table()
E = effects.Effects(P)
C, jobs = {}, []
hit = {}
def split(p):
    d, cur, L = {}, None, open(p).read().split("\n")
    for i, l in enumerate(L):
        if "__GIMPLE (ssa" in l and not l.startswith(" "):
            m = re.match(r"(?:\S* )?(\w+) \(", L[i + 1])
            cur = m.group(1) if m else L[i + 1]
            d[cur] = []
        elif cur:
            d[cur].append(re.sub(r"\S+\.[ch]:\d+(:\d+)?", "", l))
    return d


if not os.environ.get("MKBASE"):
    allr = {x[1] for x in E.reach([k for k in (E.resolve(e, None) for e in effects.exports(P)) if k])}
    chg = set()
    for n in names:
        b = n.replace("/", "__") + ".gimple"
        o, w = split(os.path.join(base_out, b)), split(os.path.join(own, b))
        chg |= {f for f in o if o[f] != w.get(f)}
    print("functions", sorted(chg)[:6])
    if chg and not (chg & allr):
        print("DEAD", sorted(chg)[:5])
        import shutil
        shutil.rmtree(own, ignore_errors=True)
        sys.exit()
SK = {"arith", "compare", "class", "conv", "round", "mode", "modeapi", "math"} if len(sys.argv) < 4 else set(sys.argv[3].split(","))
for which in sorted(SK):
    for w in (32, 64, 128):
        L = C[which, w] = getattr(spec_more, which + "_cells")(w)
        for i, c in enumerate(L):
            if c.extra.get("heavy"):
                continue
            fn = c.extra.get("fname") or "%sd%d" % (c.fn, w)
            if fn not in hit:
                k = E.resolve(fn, None)
                hit[fn] = k is not None and any(x[0] in names for x in E.reach([k]))
            if hit[fn] or os.environ.get("MKBASE"):
                jobs.append((which, w, i))


def one(j):
    which, w, i = j
    c = C[which, w][i]
    try:
        r = cells.judge(P, M, c, w, mode=c.extra.get("mode", 0), limit=6)
    except Exception:
        return j, {}
    return j, {a: v for a, v in r.verdicts.items() if v[0] == "violated"}


bl = "/tmp/w/mut/baseline.pkl"
res = set()
with Pool(int(os.environ.get("MJ", "3"))) as p:
    for (which, w, i), v in p.imap_unordered(one, jobs, chunksize=16):
        for a, d in v.items():
            c = C[which, w][i]
            res.add((which, w, c.fn, c.name, c.extra.get("mode"), c.extra.get("fname"), a))
if os.environ.get("MKBASE"):
    pickle.dump(res, open(bl, "wb"))
    print(len(res))
else:
    b = pickle.load(open(bl, "rb"))
    new = sorted(res - b, key=str)
    tab = ""
    try:
        from sa.props import s09
        refs = s09.referenced(P)
        bad = []
        for n in names:
            if P.asm[n]["objs"]:
                bad += s09.check_unit(P, n, refs)[1]
        if bad:
            tab = "TABLES %s" % bad[:2]
    except Exception as x:
        tab = "tables: %r" % x
    try:
        from sa import initflow
        ini = initflow.Init(P, E)
        bad = [x for n in names for f in P.irs[n].raw for x in ini.check(P.irs[n].func(f))]
        if bad:
            tab = "TABLES INIT %s" % bad[:2]
    except Exception as x:
        tab += "init: %r" % x
    print("CAUGHT %d %s %s" % (len(new), new[:3], tab) if new or tab.startswith("TABLES") else "MISSED (units %s, %d jobs) %s" % (names[:4], len(jobs), tab))
import shutil
shutil.rmtree(own, ignore_errors=True)
