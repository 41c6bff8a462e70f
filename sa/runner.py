"""Runs one property's analysis, compares against the known findings and writes the evidence."""
import sys, os, re, json, time, signal, importlib, traceback, fnmatch
import multiprocessing as mp
from . import frontend
from .frontend import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Finding:
    """one violated obligation.  key identifies it in the known-findings file."""

    def __init__(self, key, where, msg):
        self.key, self.where, self.msg = key, where, msg

    def __repr__(self):
        return "%s: %s [%s]" % (self.where, self.msg, self.key)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings = []
        self.proved = 0
        self.undecided = []
        self.fns = set()
        self.cov = {}
        self.samples = []
        self.min_obligations = 0
        self.tree = None
        self._prog = None
        self._models = None
        self.rule = ""
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def load(self, names=None):
        self.tree = frontend.load(names=names)
        return self.tree

    @property
    def prog(self):
        if self._prog is None:
            from .interp import Program
            self._prog = Program(self.tree)
        return self._prog

    @property
    def models(self):
        if self._models is None:
            from . import models
            self._models = models.table()
        return self._models

    def ok(self, n=1):
        self.proved += n

    def violate(self, key, where, msg):
        self.findings.append(Finding(key, where, msg))

    def undec(self, key, why=""):
        self.undecided.append((key, why))

    def pmap(self, fn, jobs, chunk=4):
        """parallel map with forked workers over the loaded program"""
        jobs = list(jobs)
        if not jobs:
            return []
        global _FN
        _FN = fn
        if JOBS <= 1:
            return [fn(j) for j in jobs]
        with mp.get_context("fork").Pool(min(JOBS, max(1, len(jobs)))) as p:
            return p.map(_call, jobs, chunksize=chunk)


_FN = None


def _call(j):
    return _FN(j)


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(argv):
    prop = None
    tier = os.environ.get("VERIF_TIER", "quick")
    i = 0
    dump = False
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--all":
            dump = True
        else:
            prop = argv[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        mod = importlib.import_module("sa.props.%s" % prop.lower())
        mod.run(ctx)
        n = ctx.proved + len(ctx.findings)
        if n < ctx.min_obligations:
            raise AnalysisBroken("only %d obligations were decided, at least %d expected: the rule no longer matches the code" %
                                 (n, ctx.min_obligations))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    finally:
        if ctx.tree:
            ctx.tree.close()
    known = [k for k in load_known() if k["property"] == prop and k.get("status") != "fixed"]
    new, hits = [], {}
    for f in ctx.findings:
        for k in known:
            if f.key in k["keys"]:
                hits.setdefault(k["id"], []).append(f)
                break
        else:
            new.append(f)
    for k in known:
        if k["id"] in hits:
            print("KNOWN-FINDING: property=%s %s (%d of its %d instances seen)" % (prop, k["what"], len(hits[k["id"]]), len(k["keys"])))
    cov = {
        "explanation": mod.EXPLANATION,
        "rule": ctx.rule or getattr(mod, "RULE", ""),
        "obligations": ctx.proved + len(ctx.findings) + len(ctx.undecided),
        "discharged": ctx.proved,
        "undecided": len(ctx.undecided),
        "undecided_sample": ["%s: %s" % u for u in ctx.undecided[:20]],
        "known_findings_seen": sum(len(v) for v in hits.values()),
        "functions_analysed": len(ctx.fns),
        "samples": ctx.samples[:10],
    }
    cov.update(ctx.cov)
    if ctx.tree:
        cov["translation_units"] = len(ctx.tree.units)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    rep = os.path.join(evdir, "%s.violations.txt" % prop)
    if new:
        with open(rep, "w") as f:
            for x in new:
                f.write("%s\n  at %s\n  %s\n\n" % (x.key, x.where, x.msg))
        for x in new[:40]:
            print("  %s at %s: %s" % (x.key, x.where, x.msg[:300]))
        if len(new) > 40:
            print("  ... %d more in %s" % (len(new) - 40, rep))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    print("OK property=%s tier=%s: %d obligations discharged, %d undecided, %d known findings, %.1f s" %
          (prop, tier, ctx.proved, len(ctx.undecided), cov["known_findings_seen"], time.time() - t0))
    return 0
