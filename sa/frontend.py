"""Front end: turns /repo's current working tree into analysable IR.

Nothing of the library is executed.  The steps are
  1. run /repo/configure out of tree in a scratch directory (produces config.h
     and the Makefile, as any build would);
  2. ask make (-n) which translation units the shared library is built from and
     with which flags;
  3. run gcc on every unit, stopping at code generation, to obtain the GIMPLE/SSA
     dump (control flow, types, calls) and the assembler text (initialisers of
     every data object, aliases, section placement);
  4. optionally the DWARF type descriptions (structure layouts).
"""
import os, re, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (not a verdict)."""


class Unit:
    __slots__ = ("name", "src", "cmd", "cwd", "dump", "asm", "obj")

    def __init__(self, name, src, cmd, cwd):
        self.name, self.src, self.cmd, self.cwd = name, src, cmd, cwd
        self.dump = self.asm = self.obj = None


class Tree:
    def __init__(self, repo=None, keep=None):
        self.repo = repo or REPO
        self.tmp = keep or tempfile.mkdtemp(prefix="verif-sa-")
        self.keep = keep is not None
        self.bld = os.path.join(self.tmp, "bld")
        self.out = os.path.join(self.tmp, "out")
        self.units = {}
        self.t0 = time.time()

    # ------------------------------------------------------------------
    def close(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _env(self):
        env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               "LC_ALL": "C", "CC": "gcc", "CXX": "g++", "AWK": "gawk",
               "CFLAGS": "-O2 -g", "CXXFLAGS": "-O2 -g",
               "HOME": os.environ.get("HOME", "/root"), "TMPDIR": self.tmp}
        return env

    def configure(self):
        os.makedirs(self.bld, exist_ok=True)
        os.makedirs(self.out, exist_ok=True)
        env = self._env()
        r = subprocess.run([os.path.join(self.repo, "configure"),
                            "--prefix=" + os.path.join(self.bld, "install")],
                           cwd=self.bld, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("configure failed: " + r.stderr[-400:])
        if not os.path.exists(os.path.join(self.repo, "libbid/bid_binarydecimal.c")):
            with open(os.path.join(self.bld, "bid_binarydecimal.c"), "w") as f:
                f.write("/* absent from this copy of the repository */\n")
        r = subprocess.run(["make", "-n", "-B", "-k", "all"], cwd=self.bld, env=env,
                           capture_output=True, text=True)
        self.maketext = r.stdout
        self._parse_cmds(r.stdout)
        if len(self.units) < 300:
            raise AnalysisBroken("only %d units found in the make plan" % len(self.units))

    def _parse_cmds(self, text):
        for line in text.split("\n"):
            m = re.search(r"-o (\S+)\.os$", line)
            if m and "-c " in line and line.lstrip().startswith("gcc"):
                name = m.group(1)
                src = re.search(r" -c (\S+)", line).group(1)
                cmd = line[:m.start()]
                cmd = re.sub(r"-MT \S+ -MD -MP -MF \S+", "", cmd)
                self.units[name] = Unit(name, src, cmd, self.bld)
                continue
            m = re.match(r"source='([^']*)' object='([^']*)\.o' libtool=no (gcc .*)$", line)
            if m:
                name = "libdecnumber/" + m.group(2)
                cmd = re.sub(r"-M[TFDP]+ ?\S*", "", m.group(3))
                cmd = re.sub(r"\s-o \S+", " ", cmd)
                if name not in self.units:
                    self.units[name] = Unit(name, m.group(1), cmd,
                                            os.path.join(self.bld, "libdecnumber"))

    def _args(self, u, extra, action="-S"):
        a = shlex.split(u.cmd)
        a = [x for x in a if x not in ("-g",) and not re.match(r"-O[0-9sg]$", x)
             and not x.startswith("-W") and x != "-pedantic"]
        a = [(action if x == "-c" else x) for x in a]
        return a + ["-w"] + extra

    def compile_unit(self, u, dwarf=False):
        base = os.path.join(self.out, u.name.replace("/", "__"))
        u.dump, u.asm = base + ".gimple", base + ".s"
        for f in (u.dump, u.asm):
            if os.path.exists(f):
                os.unlink(f)
        if dwarf:
            u.obj = base + ".o"
            args = self._args(u, ["-O0", "-g", "-gdwarf-4", "-fdump-tree-ssa-lineno-gimple=" + u.dump, "-o", u.obj], "-c")
        else:
            args = self._args(u, ["-O0", "-fdump-tree-ssa-lineno-gimple=" + u.dump, "-o", u.asm], "-S")
        r = subprocess.run(args, cwd=u.cwd, env=self._env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("unit %s does not compile: %s" % (u.name, r.stderr[-600:]))
        return u

    def compile_all(self, names=None):
        todo = [self.units[n] for n in (names or self.units)]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.compile_unit, todo))
        return self

    def dwarf_text(self, name):
        """readelf -wi text of one unit (structure layouts)."""
        u = self.units[name]
        base = os.path.join(self.out, u.name.replace("/", "__"))
        cache = base + ".dwarf"
        if os.path.exists(cache):
            with open(cache) as f:
                return f.read()
        obj = "%s.%d.dw.o" % (base, os.getpid())
        args = self._args(u, ["-O0", "-g", "-gdwarf-5", "-gstrict-dwarf", "-fno-eliminate-unused-debug-types", "-o", obj], "-c")
        r = subprocess.run(args, cwd=u.cwd, env=self._env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("unit %s does not compile: %s" % (u.name, r.stderr[-600:]))
        t = subprocess.run(["readelf", "--debug-dump=info", "-W", obj], capture_output=True, text=True).stdout
        os.unlink(obj)
        tmp = "%s.%d" % (cache, os.getpid())
        with open(tmp, "w") as f:
            f.write(t)
        os.replace(tmp, cache)
        return t


def load(repo=None, names=None, keep=None):
    t = Tree(repo, keep)
    try:
        t.configure()
        t.compile_all(names)
    except BaseException:
        t.close()
        raise
    return t


if __name__ == "__main__":
    t0 = time.time()
    with load(keep=sys.argv[1] if len(sys.argv) > 1 else None) as t:
        print(len(t.units), "units", time.time() - t0)
