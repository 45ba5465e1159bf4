"""Memory guarantees under AddressSanitizer, LeakSanitizer and Miri (C27)."""
import json, os, re, subprocess, threading, time
import base

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
ASAN = "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"
BACKENDS = {"linked": ["--features", "linked-hashmap"], "std": []}
HISTORIES = ["C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C15", "C16", "C18", "C26"]


def target(kind, backend):
    return os.path.join(base.TARGET, kind + ("" if backend == "linked" else "-" + backend))


def build_asan(crate, backend):
    d = os.path.join(base.VERIF, crate)
    args = ["build", "--offline", "-q", "--target", TRIPLE, "--no-default-features"]
    f = ["docs"] if crate == "harness" else []
    if backend == "linked":
        f.append("linked-hashmap")
    base.cargo(args + ["--features", ",".join(f)], d, target("asan-" + crate, backend), toolchain=NIGHTLY, extra=dict(RUSTFLAGS="-Zsanitizer=address"), what="AddressSanitizer build of %s (%s)" % (crate, backend))
    return os.path.join(target("asan-" + crate, backend), TRIPLE, "debug", "vh" if crate == "harness" else "mem")


def miri_cmd(backend):
    return ["cargo", "miri", "run", "--offline", "-q", "--no-default-features"] + BACKENDS[backend] + ["--"]


def miri_env(backend):
    return base.env(dict(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=target("miri", backend), MIRIFLAGS="-Zmiri-backtrace=full"))


def build_miri(backend):
    p = subprocess.run(miri_cmd(backend) + ["1", "0", "0", "1", "1"], cwd=os.path.join(base.VERIF, "memory"), env=miri_env(backend), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "DONE" not in p.stdout:
        raise base.CheckError("Miri build (%s) failed:\n%s" % (backend, p.stdout[-3000:]))


def build_all(harness_backends=("linked",)):
    """Everything the check needs, side by side."""
    jobs = [lambda b=b: build_asan("memory", b) for b in BACKENDS] + [lambda b=b: build_miri(b) for b in BACKENDS]
    jobs += [lambda b=b: build_asan("harness", b) for b in harness_backends]
    out = [None] * len(jobs)

    def go(k):
        try:
            out[k] = jobs[k]()
        except BaseException as e:
            out[k] = e
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for o in out:
        if isinstance(o, BaseException):
            raise o
    return dict(mem=dict(zip(BACKENDS, out)), vh=dict(zip(harness_backends, out[2 * len(BACKENDS):])))


REPORTS = [
    (r"ERROR: AddressSanitizer: (\S+)", "asan"), (r"ERROR: (LeakSanitizer): ", "lsan"), (r"error: Undefined Behavior: (.{0,160})", "miri"), (r"error: (memory leaked)", "miri"),
    (r"error: (deadlock|abnormal termination|the evaluated program .{0,80})", "miri"), (r"unsafe precondition\(s\) violated: (.{0,120})", "abort"), (r"(double free|free\(\): invalid|corrupt)", "abort"),
    (r"(MONITOR PANIC .{0,200})", "panic"),
]


def classify(rc, text):
    """The sanitizer's report in what a process printed, or None."""
    for pat, tool in REPORTS:
        m = re.search(pat, text)
        if m:
            # where in the library, for the report
            at = re.findall(r"/repo/prexel/src/([\w/]+\.rs):(\d+)", text[m.start():])
            return "%s:%s" % (tool, m.group(1).strip()), ["%s:%s" % a for a in at[:6]]
    if rc is not None and rc < 0 and rc not in (-9, -15):
        return "signal:%d" % -rc, []
    return None


def excerpt(text):
    m = min([x.start() for x in (re.search(p, text) for p, _ in REPORTS) if x] or [max(0, len(text) - 1500)])
    return text[m:m + 2500]


def run_mem(r, what, cmd, env, cwd, counters, lock, timeout):
    """One process of histories; its reports become violations. False if it was stopped for time."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        with lock:
            counters["stopped_" + what] = counters.get("stopped_" + what, 0) + 1
        return False
    out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    at = re.findall(r"^AT (\d+)$", out, re.M)
    done = re.search(r"^DONE (.*)$", out, re.M)
    with lock:
        for v in re.findall(r"^V (.*)$", out, re.M):
            v = json.loads(v)
            r.violation("C27:%s:%s:%s" % (what, v["sig"], v["what"]), dict(what=v["what"], history=v["history"][-60:]), " ".join(cmd))
        rep = classify(p.returncode, err) if p.returncode != 0 else None
        if rep:
            r.violation("C27:%s:%s" % (what, rep[0]), dict(case=at[-1] if at else None, library=rep[1], report=excerpt(err)), " ".join(cmd))
        elif p.returncode != 0 or not done:
            raise base.CheckError("%s ended with status %s and no report: %s" % (what, p.returncode, err[-1500:]))
        if done:
            o = json.loads(done.group(1))
            for k, n in o["counters"].items():
                counters["%s_%s" % (what, k)] = counters.get("%s_%s" % (what, k), 0) + n
            r.evaluations += o["counters"].get("evaluations", 0) + o["counters"].get("built_in", 0) + o["counters"].get("token_evaluations", 0)
            r.distinct += o["distinct"]
            counters["most_growth_bytes"] = max(counters.get("most_growth_bytes", 0), o["growth"])
    return True


def spread(jobs, workers):
    lock, errors, todo = threading.Lock(), [], list(jobs)

    def go():
        while True:
            with lock:
                if not todo or errors:
                    return
                j = todo.pop(0)
            try:
                j()
            except BaseException as e:
                with lock:
                    errors.append(e)
    ts = [threading.Thread(target=go) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]


def c27(prop, tier, seed):
    quick = tier == "quick"
    r = base.Report(prop, tier, seed)
    built = build_all(("linked",) if quick else ("linked", "std"))
    counters, lock = {}, threading.Lock()
    asan_env = base.env(dict(ASAN_OPTIONS=ASAN, RUST_BACKTRACE="0"))
    # 1. histories under AddressSanitizer and LeakSanitizer, with every value accounted for
    n = 1_200 if quick else 20_000
    jobs = []
    for b in BACKENDS:
        for k in range(4):
            cmd = [built["mem"][b], str(seed), str(k), str(k + 4 * n), "4", "0"]
            jobs.append(lambda cmd=cmd, b=b: run_mem(r, "asan_" + b, cmd, asan_env, "/", counters, lock, 300 if quick else 1500))
    spread(jobs, 8)
    # 2. the histories of other properties, for their memory errors alone
    for b, exe in built["vh"].items():
        for p in HISTORIES:
            h = base.Harness(p, "quick", seed, scale=0.15 if quick else 2, budget=20 if quick else 120, exe=exe, mem=None, hang=240,
                             environ=dict(ASAN_OPTIONS=ASAN.replace("detect_leaks=1", "detect_leaks=0")))
            try:
                h.died = lambda q, rc, h=h, p=p: died(r, h, q, rc, p)
                h.run()
                with lock:
                    counters["harness_" + p] = counters.get("harness_" + p, 0) + h.evaluations
                r.evaluations += h.evaluations
            finally:
                h.cleanup()
    # 3. short histories under Miri, in small processes for as long as there is time
    per, most, limit = 3, (96 if quick else 3000), time.time() + (100 if quick else 1500)
    jobs = []
    for k in range(most // per):
        b = "linked" if k % 2 == 0 else "std"
        cmd = miri_cmd(b) + [str(seed), str(per * k), str(per * k + per), "1", "1"]

        def go(cmd=cmd, b=b):
            if time.time() < limit:
                run_mem(r, "miri_" + b, cmd, miri_env(b), os.path.join(base.VERIF, "memory"), counters, lock, 600)
        jobs.append(go)
    spread(jobs, 8)
    r.coverage["observed"] = counters
    r.samples = ["mem %d 0 8 1 1 under Miri: two built-in contexts, one round of threads, five histories of user-defined contexts" % seed]
    for k, least in (("asan_linked_cases", 3_000), ("asan_std_cases", 3_000), ("miri_linked_cases", 6), ("miri_std_cases", 6), ("harness_C06", 1_000), ("harness_C02", 1_000)):
        if not r.violations:
            r.require(k, counters.get(k, 0), least)
    return r.finish("histories of registrations, assignments, copies, drops, iteration, token and text evaluations (some failing or panicking midway), and threads sharing names, over both storage backends: under AddressSanitizer and LeakSanitizer with a register of values alive and of bytes allocated, under Miri, and the workloads of other properties under AddressSanitizer; distinct histories")


def died(r, h, q, rc, p):
    pos = h.position(q["base"])
    with open(q["base"] + ".err", "rb") as f:
        err = f.read().decode("utf8", "replace")
    if q["hung"]:
        raise base.CheckError("%s took too long at case %s" % (p, pos))
    rep = classify(rc, err)
    if rep and rep[0].startswith("asan:stack-overflow"):
        rep = None
    if not rep:
        raise base.CheckError("%s ended with status %s and no report: %s" % (p, rc, err[-1500:]))
    r.violation("C27:harness:%s:%s" % (p, rep[0]), dict(case=pos, library=rep[1], report=excerpt(err)), h.replay_cmd(pos))
