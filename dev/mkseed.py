"""Development aid: builds /verif/seeded/<id>/ from dev/seeds.py and confirms each change in a scratch copy of /repo
(bind-mounted over /repo in a private namespace).   mkseed.py [--check] [id ...]"""
import os, sys, subprocess, json, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
SD = os.path.join(os.path.dirname(HERE), "seeded")
W = "/tmp/w/seedwork"

DEMO = r'''#!/bin/bash
# exit 0: behaviour as required; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -w -O1 -D__STDC_WANT_DEC_FP__=1 -I/repo/dfp -I/repo "$D/demo.c" -o "$T/demo" /repo/_build/libdfp.so -lm -lpthread || exit 3
cd "$T"
LD_LIBRARY_PATH=/repo/_build timeout 120 ./demo
'''
HEAD = r'''#define __STDC_WANT_DEC_FP__ 1
#define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <locale.h>
#include <wchar.h>
#include <dfp/fenv.h>
#include <dfp/math.h>
#include <dfp/stdlib.h>
#include <dfp/wchar.h>
static int bad;
#define CHECK(c) do { if (!(c)) { bad = 1; printf ("FAIL line %d: %s\n", __LINE__, #c); } } while (0)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def ns(copy, cmd, timeout=1500):
    return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && %s" % (copy, cmd)], timeout=timeout)


def make(s, check):
    sid = s["id"]
    d = os.path.join(SD, sid)
    copy = os.path.join(W, sid)
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh(["cp", "-a", "/repo", copy])
    log = []
    try:
        sh(["git", "-C", copy, "checkout", "-q", "--", "."])
        for fn, old, new, *nth in s["edits"]:
            p = os.path.join(copy, fn)
            t = open(p).read()
            if nth:         # the first match after this text
                if nth[0] not in t or old not in t[t.index(nth[0]):]:
                    return sid, "EDIT: no match in " + fn
                i = t.index(nth[0])
                i = t.index(old, i)
                open(p, "w").write(t[:i] + new + t[i + len(old):])
                continue
            if t.count(old) != 1:
                return sid, "EDIT: %s has %d matches of %r" % (fn, t.count(old), old[:50])
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", copy, "diff"]).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh", DEMO))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "demo" in s:
            open(os.path.join(d, "demo.c"), "w").write(HEAD + s.get("pre", "") + "\nint main (void)\n{\n" + s["demo"].strip("\n") + "\n  return bad;\n}\n")
        for n, c in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(c)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # unchanged
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        log.append("demo on unchanged: %d" % r.returncode)
        if r.returncode:
            return sid, "DEMO-FAILS-UNCHANGED %s" % r.stdout[-800:]
        r = ns(copy, "bash /opt/vp/test.sh %s.json" % copy)
        if not os.path.exists(copy + ".json"):
            return sid, "TESTRUN " + r.stdout[-500:]
        a = json.load(open(copy + ".json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        miss = [x for x in b["stable"] if x not in a["passed"]]
        if miss:
            return sid, "TESTS-FAIL %s %s" % (miss[:5], r.stdout[-300:] if len(miss) > 100 else "")
        r = ns(copy, "cd /repo && bash %s/demo.sh" % d)
        if r.returncode == 0:
            return sid, "DEMO-PASSES-WITH-BUG"
        log.append("demo with bug: %d (%s)" % (r.returncode, r.stdout.strip().split("\n")[0][:100]))
        if check:
            for p in [s["property"]] + s.get("also", []):
                r = ns(copy, "cd /verif && VERIF_EVIDENCE=%s python3 /verif/check.py %s" % (copy + ".ev", p))
                log.append("check %s: exit %d %s" % (p, r.returncode, " / ".join(l.strip()[:160] for l in r.stdout.split("\n")[:4])))
        return sid, "; ".join(log)
    finally:
        if not log or "with bug" not in log[-1] and not log[-1].startswith("check"):
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + ".ev", ignore_errors=True)
        for f in (copy + ".json",):
            if os.path.exists(f):
                os.unlink(f)


def main():
    a = sys.argv[1:]
    check = "--check" in a
    ids = [x for x in a if not x.startswith("-")]
    ss = [s for s in SEEDS if not ids or s["id"] in ids or any(i.endswith("*") and s["id"].startswith(i[:-1]) for i in ids)]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for sid, m in ex.map(lambda s: make(s, check), ss):
            print("%-28s %s" % (sid, m), flush=True)


main()
