"""Building, running TLC and validating traces: shared by bin/check and bin/setup."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NDT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
CLASSES = os.path.join(BUILD, "classes")
CP = ":".join([CLASSES, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])

VARIANTS = {
    # sequential drivers: memory errors are fatal
    "seq": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # the node: the harness schedules its threads itself, and is told of every memory access
    "node": ["-O1", "-g1", "-fno-omit-frame-pointer", "-include", "simros/prelude.hpp", "-fsanitize=thread"],
    # the whole node with its own matcher: scheduled at locks and sleeps only
    "sim": ["-O2", "-include", "simros/prelude.hpp"],
}
LINK = {"seq": ["-fsanitize=address"], "node": ["-rdynamic"], "sim": ["-rdynamic"]}
LIBS = ["-lceres", "-lglog", "-lpthread", "-ldl"]


class CheckError(Exception):
    """The check could not decide (not a violation)."""


class Violation(Exception):
    def __init__(self, what, files=()):
        super().__init__(what)
        self.what, self.files = what, list(files)


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode("utf8", "replace")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rel(f):
    return f.replace(REPO + "/", "REPO/", 1) if f.startswith(REPO + "/") else f


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(paths):
    h = hashlib.sha256()
    for root in paths:
        fs = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff)
        for f in fs:
            h.update(rel(f).encode() + b"\0" + read(f) + b"\0")
    return h.hexdigest()[:32]


class Builder:
    def __init__(self):
        self.cache = os.path.join(BUILD, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.lock = threading.Lock()
        self.prune()
        self._gen()

    def prune(self):
        try:
            fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(self.cache + "/*")]
        except OSError:
            return
        total = sum(s for _, s, _ in fs)
        for _, s, f in sorted(fs):
            if total < 3e9:
                break
            try:
                os.remove(f)
            except OSError:
                pass
            total -= s

    def _gen(self):
        key = tree_digest([REPO + "/msg", REPO + "/srv", VERIF + "/tools/gen_msgs.py"])
        self.gen = os.path.join(BUILD, "gen-" + key)
        if not os.path.isdir(self.gen):
            tmp = self.gen + ".%d" % os.getpid()
            rc, out = sh([sys.executable, VERIF + "/tools/gen_msgs.py", REPO, tmp])
            if rc != 0:
                raise CheckError("message generation failed:\n" + out)
            try:
                os.rename(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.hkey = tree_digest([REPO + "/include", VERIF + "/ros_stub", self.gen])
        self.hhkey = tree_digest(sorted(glob.glob(VERIF + "/harness/*.hpp")))
        self.inc = ["-I" + VERIF + "/ros_stub/include", "-I" + self.gen, "-I" + REPO + "/include",
                    "-I/usr/include/eigen3", "-I" + VERIF + "/harness"]

    def _store(self, key, make):
        """make(tmp) -> (rc, out); result cached under key."""
        dst = os.path.join(self.cache, key)
        if os.path.exists(dst):
            os.utime(dst)
            return dst
        tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
        rc, out = make(tmp)
        if rc != 0:
            if os.path.exists(tmp):
                os.remove(tmp)
            raise CheckError("build failed:\n" + out[-4000:])
        os.rename(tmp, dst)
        return dst

    def obj(self, src, flags, extra=""):
        key = digest("obj", read(src), rel(src), self.hkey, extra, *flags)
        return self._store(key, lambda t: sh(
            ["g++", "-std=c++17", "-w"] + flags + self.inc + ["-c", src, "-o", t], timeout=600))

    def drivers(self, wanted):
        """wanted: [(name, variant, [extra flags])]; returns {name: exe}.  Everything is compiled in parallel."""
        srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        jobs, errors = {}, {}
        with cf.ThreadPoolExecutor(8) as ex:
            # big ones first
            order = sorted(srcs, key=lambda s: -os.path.getsize(s) - (10**6 if "ndt_model" in s else 0))
            for v in sorted({w[1] for w in wanted}):
                for s in order:
                    jobs[("lib", v, s)] = ex.submit(self.obj, s, VARIANTS[v])
            for name, v, extra in wanted:
                for s in [os.path.join(VERIF, "harness", name + ".cpp")]:
                    fl = [f for f in VARIANTS[v] if f != "-fsanitize=thread"]
                    jobs[("drv", v, name)] = ex.submit(self.obj, s, fl, self.hhkey)
            res = {}
            for k, f in jobs.items():
                try:
                    res[k] = f.result()
                except CheckError as e:
                    errors[k] = e
            out = {}

            def link(name, v, extra):
                if ("drv", v, name) in errors:
                    raise errors[("drv", v, name)]
                objs = [res[k] for k in res if k[0] == "lib" and k[1] == v]
                drv = res[("drv", v, name)]
                key = digest("exe", drv, *objs, *extra, *LINK[v])

                def mk(t):
                    ar = t + ".a"
                    # an archive: a driver links only what it needs
                    d = t + ".d"
                    os.makedirs(d, exist_ok=True)
                    for i, o in enumerate(objs):
                        os.symlink(o, os.path.join(d, "o%d.o" % i))
                    rc, o = sh(["ar", "rcs", ar] + sorted(glob.glob(d + "/*.o")))
                    if rc == 0:
                        os.symlink(drv, os.path.join(d, "drv.o"))
                        # the node first: of functions both have, those that report their accesses
                        o1 = os.path.join(d, "drv.o")
                        rc, o = sh(["g++"] + (["-Wl,--whole-archive", ar, "-Wl,--no-whole-archive", o1] if v in ("node", "sim")
                                              else [o1, "-Wl,--start-group", ar, "-Wl,--end-group"]) +
                                   LINK[v] + extra + LIBS + ["-o", t])
                    shutil.rmtree(d, ignore_errors=True)
                    if os.path.exists(ar):
                        os.remove(ar)
                    return rc, o
                return self._store(key, mk)
            fs = {n: ex.submit(link, n, v, list(e)) for n, v, e in wanted}
            for n, f in fs.items():
                try:
                    out[n] = f.result()
                except CheckError as e:
                    es = "\n".join(str(x) for x in errors.values())
                    raise CheckError("%s: %s\n%s" % (n, e, es[-3000:]))
            return out


def ensure_java():
    stamp = os.path.join(CLASSES, ".stamp-" + tree_digest([VERIF + "/java"]))
    if os.path.exists(stamp):
        return
    tmp = CLASSES + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    rc, out = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp] + glob.glob(VERIF + "/java/*.java"))
    if rc != 0:
        raise CheckError("javac:\n" + out)
    os.makedirs(CLASSES, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f))
    shutil.rmtree(tmp, ignore_errors=True)
    open(stamp, "w").close()


_n = [0]
_nl = threading.Lock()


def tlc(module, cfg=None, env=None, workers="1", timeout=600, args=(), scratch=None, mem="3g", coverage=False):
    """Runs TLC; returns dict(rc, out, states, distinct, ...)."""
    ensure_java()
    with _nl:
        _n[0] += 1
        k = _n[0]
    meta = os.path.join(scratch, "tlc-%d" % k)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.TLC.ide=verif", "-DTLA-Library=" + VERIF + "/spec", "-cp", CP] + \
          ["tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg or module + ".cfg"] + (["-coverage", "1"] if coverage else []) + list(args) + [module + ".tla"]
    t0 = time.time()
    rc, out = sh(cmd, timeout=timeout, env=env, cwd=VERIF + "/spec")
    shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(x for x in out.split("\n") if not x.startswith("Loading ") and "operator override" not in x)
    r = dict(rc=rc, out=out, wall=time.time() - t0, states=0, distinct=0, depth=0)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r["states"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m.group(1))
    return r
