"""Common machinery of the checks: build the harness, run TLC, replay, report, evidence."""
import json, os, re, shutil, subprocess, sys, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
REF = os.path.join(VERIF, "spec", "ucd", "ref")
os.environ["UCD_REF"] = REF
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def known_findings():
    """[(property, key, text)] of the entries that suppress a listed finding."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(WORK, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.bad = []          # list of dicts: violations
        self.known_hit = {}
        self.level = "model_checking"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- building ----------------------------------------------------------
    def build(self, *crates):
        for c in crates:
            build_crate(c)

    # -- TLC ---------------------------------------------------------------
    def tlc(self, spec, module, cfg, env=None, name=None, timeout=840, workers=8,
            args=(), heap="12g", count=True):
        """Run TLC on spec/<spec>/<module>.tla with the configuration text cfg.
        Returns (output file, stats).  A failed model check is an error of the framework, never
        of the code: the model does not depend on the code."""
        name = name or module
        cfgp = self.path(name + ".cfg")
        outp = self.path(name + ".out")
        with open(cfgp, "w") as f:
            f.write(cfg)
        meta = self.path(name + ".meta")
        e = dict(os.environ)
        e.update(env or {})
        e["LANG"] = "C.UTF-8"
        e["LC_ALL"] = "C.UTF-8"
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-DTLA-Library=" + os.pathsep.join(os.path.join(VERIF, "spec", d) for d in ("normal", "idna")), "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-config", cfgp, "-workers", str(workers),
               "-metadir", meta, "-fp", "1", *args, module + ".tla"]
        with open(outp, "w") as out:
            try:
                r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec", spec), env=e,
                                   stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % name)
        shutil.rmtree(meta, ignore_errors=True)
        st = {"generated": 0, "distinct": 0}
        tail = []
        with open(outp, encoding="utf-8", errors="replace") as f:
            for line in f:
                if not line.startswith('"<<'):
                    tail.append(line)
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                    if m:
                        st = {"generated": int(m.group(1)), "distinct": int(m.group(2))}
        if r.returncode != 0:
            sys.stdout.write("".join(tail[-60:])[:6000])
            raise ToolError("TLC failed (%d) on %s" % (r.returncode, name))
        if count:
            self.states += st["distinct"]
            self.transitions += st["generated"]
        return outp, st

    def mismatches(self, outp, trace=None, only=None):
        """MISMATCH lines printed by a trace specification: (property, index, detail)."""
        recs = None
        n = 0
        with open(outp, encoding="utf-8", errors="replace") as f:
            for line in f:
                if not line.startswith('"<<\\"MISMATCH\\"') and not line.startswith('"<<"MISMATCH"'):
                    continue
                m = re.match(r'"<<\\?"MISMATCH\\?", \\?"([^"\\]*)\\?", (\d+)(?:, (.*))?>>"$', line.strip())
                if not m:
                    raise ToolError("unparsed " + line[:300])
                what, idx, detail = m.group(1), int(m.group(2)), m.group(3) or ""
                if only and what not in only:
                    continue
                n += 1
                if len(self.bad) > 60:
                    continue
                if trace and recs is None:
                    recs = open(trace, encoding="utf-8").read().split("\n")
                rec = json.loads(recs[idx - 1]) if trace else None
                self.violation({"what": what, "detail": detail[:2000], "record": rec})
        return n

    # -- running the code under test ----------------------------------------
    def run(self, exe, args, stdin=None, timeout=600, only=None, mem_gb=16):
        """Run a harness binary.  BAD lines are disagreements between specification and code; a
        crash, a hang or memory exhaustion of the driver is a violation too."""
        cmd = [os.path.join(TARGET, "release", exe)] + [str(a) for a in args]
        fin = open(stdin, "rb") if stdin else subprocess.DEVNULL
        lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        try:
            r = subprocess.run(cmd, stdin=fin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            self.violation({"what": "hang", "cmd": cmd[1:], "message": "no result after %d s" % timeout})
            return 0
        out = r.stdout.decode("utf-8", "replace").splitlines()
        n = None
        for line in out:
            if line.startswith("BAD "):
                b = json.loads(line[4:])
                if only is None or b.get("what") in only:
                    self.violation(b)
            elif line.startswith("DONE "):
                n = int(re.search(r"n=(\d+)", line).group(1))
            elif line.startswith("INFO "):
                k, v = line[5:].split("=", 1)
                self.extra[k] = self.extra.get(k, 0) + int(v)
        if n is None:
            err = r.stderr.decode("utf-8", "replace")[-600:]
            if "unreadable line from TLC" in err or "panicked" in err and "conf-" in err and r.returncode == 101 and "/repo/" not in err:
                raise ToolError("driver error: " + err)
            self.violation({"what": "crash", "cmd": cmd[1:], "exit": r.returncode, "stderr": err})
            return 0
        if stdin:
            with open(stdin, encoding="utf-8", errors="replace") as f:
                sent = sum(1 for l in f if l.startswith('"<<'))
            if sent == 0 or n < sent and not self.bad:
                raise ToolError("%s took %d of %d behaviours" % (exe, n, sent))
        self.evaluations += n
        return n

    # -- reporting -----------------------------------------------------------
    def violation(self, b):
        for pid, key, text in known_findings():
            if pid == self.id and finding_key(b) == key:
                self.known_hit[key] = text
                return
        self.bad.append(b)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self):
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict({
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.evaluations, "samples": self.samples}, **self.extra),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.bad),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, text))
        if self.bad:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.id + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.id, "seed": self.seed, "tier": self.tier,
                           "violations": self.bad[:60]}, f, indent=1)
            for b in self.bad[:5]:
                print("  " + json.dumps(b)[:700])
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            sys.stdout.flush()
            return 1
        print("OK property=%s states=%d traces=%d evaluations=%d wall=%.1fs" % (
            self.id, self.states, self.traces, self.evaluations, time.time() - self.t0))
        return 0


def finding_key(b):
    """Identity of a violation for the known-findings file."""
    return str(b.get("key", ""))


BUILT = set()


def build_crate(c):
    if c in BUILT:
        return
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTFLAGS="", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    d = os.path.join(VERIF, "harness", c)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path",
                        os.path.join(d, "Cargo.toml")], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-4000:])
        raise ToolError("building harness %s failed" % c)
    BUILT.add(c)


def consts(**kw):
    """Configuration text assigning constants; values are TLA+ text, sets of strings or ints."""
    out = []
    for k, v in kw.items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        elif isinstance(v, (list, tuple, set, frozenset)):
            v = "{" + ",".join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + "}"
        out.append("  %s = %s" % (k, v))
    return "CONSTANTS\n" + "\n".join(out) + "\n"


def main(run):
    pid = sys.argv[1]
    c = None
    try:
        c = Check(pid)
        run(c)
        rc = c.finish()
    except ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        # what was found before the tool failed (a driver that crashed leaves half a trace) still counts
        rc = c.finish() if c and c.bad else 2
    sys.stdout.flush()
    os._exit(rc)
