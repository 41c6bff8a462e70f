"""Development aid: random source mutants; those that build and pass the stable tests are run through the cell tables,
and the ones nothing notices are listed for inspection.    mutate.py SEED N WORKERS file..."""
import sys, os, re, random, subprocess, json, shutil, pickle, time
W = "/tmp/w/mut"
BASE = json.load(open("/opt/vp/BASELINE.json"))

OPS = [(r"(?<![<>=!+\-*/&|^%])<(?![<=])", ["<=", ">"]), (r"(?<![<>=!\-])>(?![>=])", [">=", "<"]), (r"<=", ["<"]), (r"(?<!>)>=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[(\s&|])!(?=[\w(])", [""]),
       (r"\bEDOM\b", ["ERANGE"]), (r"\bERANGE\b", ["EDOM"]), (r"\bFE_INVALID\b", ["FE_DIVBYZERO"]), (r"\bFE_DIVBYZERO\b", ["FE_INVALID"]),
       (r"\bFE_OVERFLOW\b", ["FE_UNDERFLOW"]), (r"\bDFP_NAN\b", ["DFP_HUGE_VAL"]), (r"\bDFP_HUGE_VAL\b", ["DFP_NAN", "-DFP_HUGE_VAL"]),
       (r"\bDEC_INFINITY\b", ["-DEC_INFINITY", "DFP_NAN"]), (r"(?<=return )-", [""]), (r"(?<=return )(?=[a-z])", ["-"]),
       (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]), (r"(?<![\w.])0x[0-9a-f]+(?=ull|ULL|\b)", ["+1", "bit"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
       (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<= )\|(?= )", ["&"]), (r"(?<= )&(?= )", ["|"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"])]
DEL = re.compile(r"^\s*(DFP_ERRNO|DFP_EXCEPT|return |[a-zA-Z_][\w.\->\[\]]* [-+|&]?= |[a-zA-Z_]\w* ?\().*;\s*$")


def mutants(path, rng):
    t = open(path).read().split("\n")
    # skip the licence comment and preprocessor lines
    out, com = [], False
    for i, l in enumerate(t):
        s = l
        if com:
            if "*/" not in s:
                continue
            s = s.split("*/", 1)[1]
            com = False
        s2 = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), s)
        s2 = s2.split("//")[0]
        if "/*" in s2:
            com = True
            s2 = s2.split("/*")[0]
        off = len(l) - len(s)
        if s2.strip().startswith("#") or "__asm" in s2 or '"' in s2 or off or "alias" in s2:
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, s2):
                for r in reps:
                    g = m.group()
                    if r in ("+1", "-1", "bit") and g and g[0].isdigit():
                        v = int(g, 0)
                        v = v + 1 if r == "+1" else v - 1 if r == "-1" else v ^ (1 << rng.randrange(max(1, v.bit_length())))
                        if v < 0:
                            continue
                        r2 = hex(v) if g.startswith("0x") else str(v)
                    else:
                        r2 = r
                    out.append((i, l[:m.start()] + r2 + l[m.end():]))
        if DEL.match(s2):
            out.append((i, re.match(r"\s*", l).group() + ";"))
    return t, out


def sh(cmd, timeout=600, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 99, "timeout"
        return R


def worker(wid, jobs, logf):
    copy = "%s/%d" % (W, wid)
    if os.path.exists(copy):
        shutil.rmtree(copy)
    sh(["cp", "-a", "/repo", copy])
    keep0 = "%s/keep%d" % (W, wid)
    for k, (f, i, new) in enumerate(jobs):
        p = os.path.join(copy, f)
        orig = open(p).read()
        L = orig.split("\n")
        old = L[i]
        L[i] = new
        open(p, "w").write("\n".join(L))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            # hash of the built library before / after
            r = sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1" % copy])
            if r.returncode:
                rec["r"] = "nobuild"
                continue
            h = sh("cd %s/_build; objdump -d -s -j .text -j .rodata -j .data -j .data.rel.ro libdfp-1*.so | sha1sum" % copy, shell=True).stdout
            if k == -1 or h == BASEH:
                rec["r"] = "same"
                continue
            sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && VP=1 bash /opt/vp/test.sh %s/t%d.json >/dev/null 2>&1" % (copy, W, wid)])
            try:
                passed = set(json.load(open("%s/t%d.json" % (W, wid)))["passed"])
            except Exception:
                passed = set()
            if not set(STABLE) <= passed:
                rec["r"] = "tests"
                continue
            r = sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /tmp && python3 /verif/dev/mutcheck.py %s %s" % (copy, keep0, f)], timeout=900)
            rec["r"] = "survived"
            rec["check"] = r.stdout[-1500:]
        finally:
            open(p, "w").write(orig)
            with open(logf, "a") as o:
                o.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    seed, n, nw = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    os.makedirs(W, exist_ok=True)
    STABLE = BASE["stable"] if "stable" in BASE else BASE.get("passed", BASE)
    rng = random.Random(seed)
    pool = []
    for f in files:
        t, ms = mutants("/repo/" + f, rng)
        rng.shuffle(ms)
        pool.append([(f, i, new) for i, new in ms])
    jobs = []
    while len(jobs) < n and any(pool):
        for q in pool:
            if q and len(jobs) < n:
                jobs.append(q.pop())
    BASEH = sh("cd /repo/_build; objdump -d -s -j .text -j .rodata -j .data -j .data.rel.ro libdfp-1*.so | sha1sum", shell=True).stdout
    log = "%s/log.%d" % (W, seed)
    if os.path.exists(log):
        os.unlink(log)
    pids = []
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            try:
                worker(w, jobs[w::nw], log)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    print("done", len(jobs))
