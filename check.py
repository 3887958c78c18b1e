#!/usr/bin/env python3
"""Decides one property: check.py C01

  1. TLC checks the specification's own models (MC*.tla) for the property,
  2. TLC exports the specification's tables and behaviours as JSON,
  3. the harness (built from /repo's working tree) replays them into the real
     code and records what the real code does on its own,
  4. TLC decides whether each recording is a behaviour of the specification.

Exit 0: held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, M, X  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dtlc2.TLC.stopAfter=100000",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
# what TLC exits with when the specification does not accept something
REFUSED = {10, 11, 12, 13, 14, 75, 76, 77}


class ToolError(Exception):
    pass


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v if not v.startswith("=") else v[1:]
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ToolError("constant %r" % (v,))


def write_cfg(path, m, constants):
    with open(path, "w") as f:
        if m.get("spec"):
            f.write("SPECIFICATION %s\n" % m["spec"])
        else:
            f.write("INIT Init\nNEXT Next\n")
        for k, v in constants.items():
            # sets and sequences are written in the cfg as values
            if isinstance(v, str) and v.startswith("<-"):
                f.write("CONSTANT %s <- %s\n" % (k, v[2:].strip()))
            else:
                f.write("CONSTANT %s = %s\n" % (k, tla(v)))
        for i in m.get("invariants", ()):
            f.write("INVARIANT %s\n" % i)
        for i in m.get("properties", ()):
            f.write("PROPERTY %s\n" % i)
        if m.get("post"):
            f.write("POSTCONDITION %s\n" % m["post"])
        for k in ("VIEW", "CONSTRAINT", "SYMMETRY"):
            if m.get(k.lower()):
                f.write("%s %s\n" % (k, m[k.lower()]))
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if m.get("deadlock") else "FALSE"))


def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


TRACE_INV = {"TraceTurns": ["Each", "LegalHere"], "TraceHeld": ["Each"], "TraceWhole": ["Each"]}
# those whose behaviours have another name than TSpec
TRACE_NAMED = {"TraceWhole": "WSpec"}
TRACE_SPEC = {"spec": "TSpec", "post": "Accepted"}


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.conf = CHECKS[pid]
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.budget = 840 if self.tier == "quick" else 4 * 3600
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.trans = self.traces = self.events = 0
        self.models = []
        self.violations = []
        self.rep = {}
        self.notes = []

    def left(self):
        return max(20, self.budget - (time.time() - self.t0))

    # ------------------------------------------------------------- TLC
    def tlc(self, name, module, m, constants, env=None, workers=2, heap="3g", timeout=None):
        cfg = os.path.join(self.dir, name + ".cfg")
        write_cfg(cfg, m, constants)
        meta = os.path.join(self.dir, "tlc-" + name)
        cmd = JAVA[:1] + ["-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + self.dir] + JAVA[1:] + [
            "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", meta, "-config", cfg]
        cmd += m.get("args", []) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        rc, out = run(cmd, timeout or self.left(), cwd=SPEC, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            raise ToolError("TLC ran out of time on %s" % name)
        g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dis = (int(g[-1][0]), int(g[-1][1])) if g else (0, 0)
        return rc, out, gen, dis

    def model(self, i, m):
        name = "m%d-%s" % (i, m["module"])
        rc, out, gen, dis = self.tlc(name, m["module"], m, m.get("constants", {}),
                                     workers=m.get("workers", 3), heap=m.get("heap", "4g"))
        if rc != 0:
            raise ToolError("the specification's model %s %s does not hold (TLC %s):\n%s"
                            % (m["module"], m.get("constants"), rc, out[-3000:]))
        return {"module": m["module"], "constants": {k: v if isinstance(v, str) else tla(v) for k, v in m.get("constants", {}).items()},
                "checked": list(m.get("invariants", ())) + list(m.get("properties", ())),
                "distinct_states": dis, "states_generated": gen}

    def export(self, i, x):
        name = "x%d-%s" % (i, x["module"])
        out = os.path.join(self.dir, x["out"])
        c = dict(x.get("constants", {}))
        c["OutFile"] = out
        rc, txt, gen, dis = self.tlc(name, x["module"], x, c, workers=x.get("workers", 2), heap=x.get("heap", "4g"))
        if rc != 0 or not os.path.exists(out):
            raise ToolError("exporting %s failed (TLC %s):\n%s" % (x["module"], rc, txt[-3000:]))
        return {"module": x["module"], "distinct_states": dis, "states_generated": gen}

    def trace(self, i, t):
        m = dict(TRACE_SPEC)
        m["spec"] = TRACE_NAMED.get(t["module"], m["spec"])
        m["invariants"] = TRACE_INV.get(t["module"], [])
        rc, out, gen, dis = self.tlc("t%d" % i, t["module"], m, t["constants"],
                                     env={"TRACE": t["file"]}, workers=1, heap="3g")
        return t, rc, out, gen, dis

    # --------------------------------------------------------- harness
    def build(self):
        """The harness with all it needs, or with just this check's part of it: with the
        crate's hooks if they build, without them otherwise."""
        base = ["cargo", "build", "--offline", "--release", "--quiet"]
        alone = base + ["--no-default-features", "--features"]
        f = self.conf["feature"]
        tries = [(base, True), (alone + [f + ",hooks"], True), (alone + [f], False)]
        err = ""
        for cmd, hooks in tries:
            target = os.path.join(HARNESS, "target" if hooks else "target-plain")
            env = dict(os.environ)
            env["RUSTFLAGS"] = "--cfg verif_hooks" if hooks else ""
            env["CARGO_TARGET_DIR"] = target
            env.setdefault("CARGO_NET_OFFLINE", "true")
            rc, out = run(cmd, self.left(), cwd=HARNESS, env=env)
            if rc == 0:
                return os.path.join(target, "release", "conform")
            err = out
        raise ToolError("building the harness failed:\n" + err[-4000:])

    def build_binary(self):
        """The program itself, as a user would build it."""
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        target = os.path.join(HARNESS, "target-bin")
        env["CARGO_TARGET_DIR"] = target
        env.setdefault("CARGO_NET_OFFLINE", "true")
        rc, out = run(["cargo", "build", "--offline", "--release", "--quiet", "--bin", "barbarosa"], self.left(),
                      cwd="/repo", env=env)
        if rc != 0:
            raise ToolError("building the program failed:\n" + out[-4000:])
        return os.path.join(target, "release", "barbarosa")

    def harness(self, exe, binary):
        out = os.path.join(self.dir, "report.json")
        cmd = [exe, self.pid, "--dir", self.dir, "--out", out, "--seed", str(self.seed), "--tier", self.tier,
               "--scratch", os.path.join(self.dir, "scratch"), "--watchdog", "150"]
        if binary:
            cmd += ["--bin", binary]
        os.mkdir(os.path.join(self.dir, "scratch"))
        env = dict(os.environ)
        env["RUST_BACKTRACE"] = "0"
        env["VERIF_ROOT"] = ROOT
        rc, txt = run(cmd, self.left(), cwd=os.path.join(self.dir, "scratch"), env=env)
        if rc is None:
            self.violations.append({"what": "the replay did not end in time", "replay": txt[-2000:]})
            return
        if rc != 0:
            if rc < 0 or rc == 134:
                self.violations.append({"what": "the code under test ended the process (%s)" % rc, "replay": txt[-2000:]})
                return
            raise ToolError("harness exit %s:\n%s" % (rc, txt[-3000:]))
        self.rep = json.load(open(out))
        self.violations += self.rep["violations"]

    # ------------------------------------------------------------ main
    def go(self):
        c = self.conf
        models = list(c.get("models", []))
        if self.tier == "thorough":
            models += c.get("thorough_models", [])
        exports = list(c.get("exports", []))
        if self.tier == "thorough" and "thorough_exports" in c:
            exports = c["thorough_exports"]
        pool = cf.ThreadPoolExecutor(max_workers=4)
        build = pool.submit(self.build)
        binary = None
        if c.get("binary") or (c.get("thorough_binary") and self.tier == "thorough"):
            binary = pool.submit(self.build_binary)
        xs = [pool.submit(self.export, i, x) for i, x in enumerate(exports)]
        ms = [pool.submit(self.model, i, m) for i, m in enumerate(models)]
        for f in xs:
            self.models.append(f.result())
        exe = build.result()
        self.harness(exe, binary.result() if binary else None)
        ts = [pool.submit(self.trace, i, t) for i, t in enumerate(self.rep.get("traces", []))]
        for f in ts:
            t, rc, out, gen, dis = f.result()
            self.states += dis
            self.trans += gen
            if rc == 0:
                self.traces += t["segments"]
                self.events += t["events"]
            elif rc in REFUSED:
                lines = open(t["file"]).read().split("\n")
                d = re.findall(r"depth of the complete state graph search is (\d+)", out)
                at = int(d[-1]) if d else len(re.findall(r"^State \d+:", out, re.M))
                self.violations.append({
                    "what": "TLC does not accept the recorded run %s at event %d: %s"
                            % (os.path.basename(t["file"]), at, (lines[at - 1] if 0 < at <= len(lines) else "")[:300]),
                    "replay": {"module": t["module"], "constants": t["constants"], "accepted_events": at - 1,
                               "events": [json.loads(x) for x in lines[max(0, at - 40):at] if x],
                               "tlc": out[-2500:]}})
            else:
                raise ToolError("TLC exit %s on trace %s:\n%s" % (rc, t["file"], out[-3000:]))
        for f in ms:
            self.models.append(f.result())
        pool.shutdown()
        for m in self.models:
            self.states += m["distinct_states"]
            self.trans += m["states_generated"]

    def known(self):
        path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        listed = {}
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == self.pid:
                listed[m.group(2)] = m.group(3)
        for k in self.rep.get("known", []):
            if k["key"] in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k["key"], listed[k["key"]]))
            else:
                self.violations.append({"what": k["what"], "replay": k})

    def evidence(self):
        cov = {
            "states": self.states,
            "transitions": self.trans,
            "traces_validated_against_impl": self.traces,
            "trace_events_validated": self.events,
            "models": self.models,
            "replayed_into_the_code": self.rep.get("counters", {}),
            "samples": self.rep.get("samples", []) or ["none recorded: the run ended early"],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.conf["level"],
              "coverage": cov, "assumptions": self.conf.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if ev["level"] != "model_checking":
            cov.update(self.conf.get("extra", {}))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def main(self):
        try:
            self.go()
            self.known()
            self.evidence()
        except ToolError as e:
            if not self.violations:
                print("ERROR property=%s %s" % (self.pid, e))
                return 2
            self.evidence()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations}, f, indent=1)
            for v in self.violations[:8]:
                print("  " + v["what"][:500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs"
              % (self.pid, self.states, self.trans, self.traces, time.time() - self.t0))
        return 0


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py ID; ids: %s" % " ".join(sorted(CHECKS)))
        sys.exit(2)
    sys.exit(Check(sys.argv[1]).main())
