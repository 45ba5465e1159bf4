"""Running the harness in supervised worker processes, known findings, evidence and verdicts."""
import glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
HANG_CPU_S = 40  # processor seconds one case may take
MEM_LIMIT = 6 << 30


class CheckError(Exception):
    """The check itself could not decide."""


def env(extra=None):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=STABLE, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    if extra:
        e.update(extra)
    return e


def cargo(args, cwd, target, toolchain=None, extra=None, what="build"):
    e = env(extra)
    e["CARGO_TARGET_DIR"] = target
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def build_vh():
    cargo(["build", "--offline", "-q"], os.path.join(VERIF, "harness"), TARGET, what="harness build")
    return os.path.join(TARGET, "debug", "vh")


def build_apps():
    """The command-line evaluator and the server, with the workspace's own settings."""
    t = os.path.join(TARGET, "apps")
    cargo(["build", "--offline", "-q", "-p", "eval", "-p", "prexel-server"], REPO, t, what="application build")
    return t


def build_served():
    """The published library the server is built with, as its reference."""
    t = os.path.join(TARGET, "served")
    cargo(["build", "--offline", "-q"], os.path.join(VERIF, "served"), t, what="reference build")
    return os.path.join(t, "debug", "served")


def limits(cpu=None, mem=MEM_LIMIT):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


class Harness:
    """Runs one property's workload in shards and gathers what the monitors observed."""

    def __init__(self, prop, tier, seed, scale=1.0, shards=8, budget=600, log=False, exe=None, wrapper=None, environ=None, mem=MEM_LIMIT, hang=HANG_CPU_S):
        self.prop, self.tier, self.seed, self.scale, self.shards = prop, tier, seed, scale, shards
        self.budget, self.log, self.mem, self.hang = budget, log, mem, hang
        self.exe = exe or build_vh()
        self.wrapper = wrapper or []
        self.environ = env(environ)
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.evaluations, self.counters, self.samples, self.violations, self.logs = 0, {}, [], [], []
        self.distinct = set()
        self.truncated = False

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cmd(self, k, n, only=None, tag=""):
        c = self.wrapper + [self.exe, self.prop, "--tier", self.tier, "--seed", str(self.seed), "--scale", str(self.scale)]
        base = os.path.join(self.dir, "%s%d" % (tag, k))
        c += ["--shard", "%d/%d" % (k, n), "--out", base + ".json", "--progress", base + ".prog", "--budget", str(self.budget)]
        if self.log:
            c += ["--log", base + ".log"]
        if only is not None:
            c += ["--only", str(only)]
        return c, base

    def position(self, base):
        try:
            with open(base + ".prog", "rb") as f:
                b = f.read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def run(self):
        procs = []
        for k in range(self.shards):
            c, base = self.cmd(k, self.shards)
            err = open(base + ".err", "wb")
            p = subprocess.Popen(c, stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=self.environ, preexec_fn=limits(mem=self.mem), start_new_session=True)
            procs.append(dict(p=p, base=base, k=k, pos=None, at=0.0, hung=False))
        try:
            pending = list(procs)
            while pending:
                time.sleep(0.1)
                for q in list(pending):
                    if q["p"].poll() is not None:
                        pending.remove(q)
                        continue
                    pos, cpu = self.position(q["base"]), cpu_of(q["p"].pid)
                    if cpu is None:
                        continue
                    if pos != q["pos"]:
                        q["pos"], q["at"] = pos, cpu
                    elif cpu - q["at"] > self.hang and pos is not None:
                        q["hung"] = True
                        q["p"].kill()
        finally:
            for q in procs:
                if q["p"].poll() is None:
                    q["p"].kill()
        for q in procs:
            rc = q["p"].returncode
            if rc == 0 and not q["hung"]:
                self.merge(q["base"])
            else:
                self.died(q, rc)
        return self

    def merge(self, base):
        with open(base + ".json") as f:
            o = json.load(f)
        self.evaluations += o["evaluations"]
        for k, v in o["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += o["samples"]
        self.violations += o["violations"]
        self.truncated |= o["truncated"]
        with open(base + ".json.distinct", "rb") as f:
            b = f.read()
        self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if self.log:
            self.logs.append(base + ".log")

    def died(self, q, rc):
        pos = self.position(q["base"])
        with open(q["base"] + ".err", "rb") as f:
            err = f.read()[-3000:].decode("utf8", "replace")
        if pos is None:
            raise CheckError("worker ended before its first case (status %s): %s" % (rc, err))
        # the same case alone
        c, base = self.cmd(q["k"], self.shards, only=pos, tag="again")
        with open(base + ".err", "wb") as f:
            try:
                p = subprocess.run(c, stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=self.environ, preexec_fn=limits(cpu=self.hang, mem=self.mem), timeout=self.hang * 8)
                rc2 = p.returncode
            except subprocess.TimeoutExpired:
                rc2 = "timeout"
        with open(base + ".err", "rb") as f:
            err2 = f.read()[-3000:].decode("utf8", "replace")
        if rc2 == 0:
            raise CheckError("worker ended with status %s at case %d, which is fine alone: %s" % (rc, pos, err))
        what = "hang" if q["hung"] or rc2 in ("timeout", -signal.SIGXCPU, -signal.SIGKILL) else "crash"
        self.violations.append(dict(
            sig="%s:%s:case %d" % (self.prop, what, pos), index=pos,
            detail=dict(observed="%s (status %s, alone: %s)" % (what, rc, rc2), output=(err2 or err)[-1500:])))

    def replay_cmd(self, index):
        return "%s %s --tier %s --seed %s --scale %s --only %d" % (self.exe, self.prop, self.tier, self.seed, self.scale, index)


def known_findings():
    """{property: {sig: description}}"""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if line.startswith("known: "):
                head, _, what = line[7:].rstrip("\n").partition(" :: ")
                prop, _, sig = head.partition(" sig=")
                out.setdefault(prop.split("property=")[1].strip(), {})[sig] = what
    return out


class Report:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.start = time.time()
        self.evaluations, self.distinct, self.samples = 0, 0, []
        self.coverage = {}
        self.violations = []
        self.assumptions = []
        self.floors = []

    def take(self, h, log=False):
        """What a Harness observed."""
        self.evaluations += h.evaluations
        self.distinct += len(h.distinct)
        self.samples += h.samples[:6]
        c = self.coverage.setdefault("observed", {})
        for k, v in h.counters.items():
            c[k] = c.get(k, 0) + v
        for v in h.violations:
            v = dict(v)
            v["replay_cmd"] = h.replay_cmd(v["index"])
            self.violations.append(v)
        if h.truncated:
            self.coverage["truncated_by_budget"] = True

    def violation(self, sig, detail, replay_cmd=None):
        self.violations.append(dict(sig=sig, detail=detail, replay_cmd=replay_cmd))

    def require(self, name, got, least):
        self.floors.append((name, got, least))

    def finish(self, rule):
        known = known_findings().get(self.prop, {})
        new, seen = [], {}
        for v in self.violations:
            if v["sig"] in known:
                seen[v["sig"]] = known[v["sig"]]
            else:
                new.append(v)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=rule, samples=self.samples[:8] or ["none"])
        cov.update(self.coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.start, 2), violations=len(new))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if known:
            ev["coverage"]["known_findings_seen"] = sorted(seen)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")
        for sig, what in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if new:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            shown = set()
            for i, v in enumerate(new[:10]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, ensure_ascii=True, default=str)
                    f.write("\n")
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s" % json.dumps(v.get("sig"), ensure_ascii=True)[:400])
                print("  %s" % json.dumps(v.get("detail"), ensure_ascii=True, default=str)[:800])
            return 1
        bad = ["%s: %s < %s" % f for f in self.floors if f[1] < f[2]]
        if bad:
            print("CHECK ERROR: too little was observed: " + "; ".join(bad))
            return 2
        print("ok property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evaluations, self.distinct, time.time() - self.start))
        return 0
