"""bin/check PROP: decides one property.  Exit 0: held; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import concurrent.futures as cf
import json, os, re, shutil, sys, tempfile, threading, time, traceback
import vlib
from vlib import VERIF, CheckError, Violation, sh, tlc


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "out"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.mcs = [], [], []
        self.exes = {}
        self.lock = threading.Lock()

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ---- the specification on its own
    def mc(self, module, cfg=None, env=None, workers=3, timeout=700, args=(), mem="4g"):
        r = tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, args=args, scratch=self.scratch, mem=mem)
        ok = "No error has been found" in r["out"] or ("-simulate" in args and r["rc"] == 0)
        if not ok:
            raise CheckError("the specification %s does not check (rc %s):\n%s" % (module, r["rc"], r["out"][-6000:]))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["states"]
            self.mcs.append(dict(module=module, cfg=cfg or module + ".cfg", distinct=r["distinct"], generated=r["states"],
                                 depth=r["depth"], wall_s=round(r["wall"], 1)))
        return r

    def refute(self, module, cfg, slip, expect):
        """The design with one step done wrong must violate the property: it is not vacuous."""
        with open(os.path.join(VERIF, "spec", cfg)) as f:
            txt = f.read()
        mine = self.path("slip-%d.cfg" % len(self.mcs))
        with open(mine, "w") as f:
            f.write(txt.replace("Slips = {}", 'Slips = {"%s"}' % slip))
        r = tlc(module, cfg=mine, workers=3, timeout=600, scratch=self.scratch, mem="4g")
        if not re.search(r"(Invariant|property) %s is violated|Action property %s" % (expect, expect), r["out"]):
            raise CheckError("the specification with the slip '%s' does not violate %s:\n%s" % (slip, expect, r["out"][-3000:]))
        with self.lock:
            self.mcs.append(dict(module=module, cfg=cfg + " with the slip '" + slip + "' violates " + expect, distinct=r["distinct"],
                                 generated=r["states"], depth=r["depth"], wall_s=round(r["wall"], 1)))

    def gen(self, module, env, out="hist.txt", cfg=None, **kw):
        """TLC writes histories (JSON arrays of words); converted to lines of words."""
        js = self.path(out + ".json")
        e = dict(env)
        e["OUT"] = js
        self.mc(module, cfg=cfg, env=e, **kw)
        txt = self.path(out)
        n = 0
        with open(js) as f, open(txt, "w") as g:
            for line in f:
                line = line.strip()
                if line:
                    g.write(" ".join(str(w) for w in json.loads(line)) + "\n")
                    n += 1
        if n == 0:
            raise CheckError("no histories generated by " + module)
        return txt

    # ---- the code
    def drive(self, name, out, timeout, args):
        cmd = ([sys.executable] if self.exes[name].endswith(".py") else []) + [self.exes[name], "out=" + out] + ["%s=%s" % kv for kv in args.items()]
        rc, txt = sh(cmd, timeout=timeout, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77",
                                               "GLOG_minloglevel": "3", "GLOG_logtostderr": "1"})
        return rc, txt

    def validate(self, module, trace, cfg=None, env=None, timeout=600, mem="3g"):
        """None if accepted, else (line number, explanation)."""
        e = {"TRACE": trace}
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, workers="1", timeout=timeout, scratch=self.scratch, mem=mem)
        out = r["out"]
        if "TRACE-ACCEPTED" in out and "No error has been found" in out:
            with self.lock:
                self.states += r["distinct"]
                self.transitions += r["states"]
            return None
        m = re.search(r"TRACE-REJECTED\"?, (\d+)", out)
        inv = re.search(r"Invariant (\S+) is violated", out)
        if m or inv:
            mm = re.findall(r"<<\s*\"MISMATCH\",\s*(\d+),\s*(\"[^\"]*\"(?:[^>]|>(?!>))*)>>", out)
            line = int(m.group(1)) if m else 0
            why = sorted({w for ln, w in mm if not line or int(ln) == line})
            if inv:
                why.append("invariant " + inv.group(1))
                if not line:
                    ls = re.findall(r"/\\ l = (\d+)", out)
                    line = int(ls[-1]) if ls else 0
            return (line, "; ".join(why) or "no specified step matches")
        raise CheckError("trace validation %s failed (rc %s):\n%s" % (module, r["rc"], out[-5000:]))

    def conform(self, driver, module, args, cfg=None, env=None, parts=1, timeout=150, prune=True, vtimeout=600, mem="3g"):
        """Run the driver (parts times, different seeds), validate every trace; confirm rejections by a re-run."""
        def one(k):
            a = dict(args)
            a["seed"] = self.seed * 1000 + k
            a["part"] = k
            a["parts"] = parts
            tr = self.path("%s-%s-%d.ndjson" % (driver, module, k))

            def once():
                rc, txt = self.drive(driver, tr, timeout, a)
                if rc != 0:
                    return ("crash", rc, txt)
                bad = self.validate(module, tr, cfg=cfg, env=env, timeout=vtimeout, mem=mem)
                if bad:
                    return ("reject",) + bad
                return None
            bad = once()
            if bad:
                again = once()
                if not again or again[0] != bad[0]:
                    raise CheckError("rejection did not repeat: %r then %r" % (bad, again))
                with open(tr + ".cmd", "w") as f:
                    f.write("driver: %s %s\ntrace specification: %s (%s)\n" % (self.exes[driver], a, module, cfg or module + ".cfg"))
                    if bad[0] == "crash":
                        f.write("the code under test did not survive: exit %s\n%s\n" % (bad[1], bad[2][-8000:]))
                    else:
                        lines = open(tr).read().split("\n")
                        f.write("rejected at line %d: %s\n" % (bad[1], bad[2]))
                        f.write("\n".join(lines[max(0, bad[1] - 4):bad[1]]) + "\n")
                if bad[0] == "crash":
                    raise Violation("%s: exit %s: %s" % (driver, bad[1], first_report(bad[2])), [tr, tr + ".cmd"])
                raise Violation("%s line %d: %s" % (os.path.basename(tr), bad[1], bad[2]), [tr, tr + ".cmd"])
            with open(tr) as f:
                ls = f.read().split("\n")
            with self.lock:
                self.events += len(ls) - 1
                self.traces += max(1, sum(1 for x in ls if x.startswith('{"e":"new"')))
                if k == 0 and len(self.samples) < 6:
                    self.samples.append({"driver": driver, "trace_spec": module, "first_events": [x[:400] for x in ls[:4]],
                                         "last_event": ls[-2][:400] if len(ls) > 1 else ""})
            if prune:
                os.remove(tr)
            return None
        with cf.ThreadPoolExecutor(min(parts, 7)) as ex:
            fs = [ex.submit(one, k) for k in range(parts)]
            errs = [f.exception() for f in fs]
        for e in errs:
            if isinstance(e, Violation):
                raise e
        for e in errs:
            if e:
                raise e


def first_report(txt):
    for line in txt.split("\n"):
        if "ERROR: AddressSanitizer" in line or "terminate called" in line or "what()" in line or "Assertion" in line or "FATAL" in line:
            return line.strip()[:300]
    return txt.strip()[-300:].replace("\n", " | ")


def write_evidence(c, wall, violations, level):
    ev = dict(property=c.prop, tier=c.tier, seed=c.seed, level=level,
              coverage=dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces,
                            events_validated=c.events, samples=c.samples or ["none"], models=c.mcs, notes=c.notes),
              assumptions=["the ROS stand-in (ros_stub/) behaves like ROS 2 for the calls the package makes",
                           "IEEE double arithmetic of the JVM and of the code agree up to the tolerances stated in the specification"],
              wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", c.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def main(argv):
    import props
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.PROPS[prop]
    t0 = time.time()
    c = Ctx(prop, tier, seed)
    keep = False
    try:
        with cf.ThreadPoolExecutor(1) as ex:
            fb = ex.submit(lambda: vlib.Builder().drivers([props.DRIVERS[d] for d in spec["drivers"] if props.DRIVERS[d][1] != "py"]))
            vlib.ensure_java()
            spec["model"](c)          # the specification, while the code is being built
            c.exes = fb.result()
            for d in spec["drivers"]:
                if props.DRIVERS[d][1] == "py":
                    c.exes[d] = os.path.join(VERIF, "harness", d + ".py")
        t1 = time.time()
        spec["code"](c)
        for key, txt in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, txt))
        write_evidence(c, time.time() - t0, 0, "model_checking")
        print("%s held: %d model states, %d traces (%d events) validated, %.1f s (model+build %.1f s)" %
              (prop, c.states, c.traces, c.events, time.time() - t0, t1 - t0))
        return 0
    except Violation as v:
        keep = True
        rep = os.path.join(VERIF, "out", "violation-%s" % prop)
        shutil.rmtree(rep, ignore_errors=True)
        os.makedirs(rep)
        for f in v.files:
            if os.path.exists(f):
                shutil.copy(f, rep)
        with open(os.path.join(rep, "what.txt"), "w") as f:
            f.write(v.what + "\n")
        c.samples.append({"violation": v.what[:500]})
        write_evidence(c, time.time() - t0, 1, "model_checking")
        print(v.what[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    except Exception as e:
        print("ERROR: check %s gave no answer: %s" % (prop, e), file=sys.stderr)
        if not isinstance(e, CheckError):
            traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.scratch, ignore_errors=True)


def setup():
    import props
    vlib.ensure_java()
    t = time.time()
    vlib.Builder().drivers([d for d in props.DRIVERS.values() if d[1] != "py"])
    print("built %d drivers in %.1f s" % (len(props.DRIVERS), time.time() - t))
    return 0
