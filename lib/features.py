"""The same workload in builds that differ only in optional features (C28)."""
import json, os, random, re, subprocess, threading
import apps, base

BOTH = ["docs", "linked-hashmap"]
SETS = {"both": BOTH, "docs": ["docs"], "linked": ["linked-hashmap"], "none": []}
FULL = ["f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "i32u", "i64u", "i128u", "dec", "cplx", "cplx32", "bin"]
PLAIN = ["f64c", "f64u", "f32c", "f32u", "i32", "i128", "i32u", "i64u"]
HISTORIES = ["C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C15", "C16"]
VARS = [["x", "3"], ["y", "7"], ["foo", "2"], ["big", "1000"], ["x1", "5"]]


class Broken(Exception):
    """The build failed in the library itself."""


def build(crate, name):
    d = os.path.join(base.VERIF, crate)
    t = os.path.join(base.TARGET, "features", crate + "-" + name)
    extra = dict(CARGO_PROFILE_DEV_OPT_LEVEL="0", CARGO_PROFILE_DEV_DEBUG="0")
    try:
        base.cargo(["build", "--offline", "-q", "--no-default-features", "--features", ",".join(SETS[name])], d, t, extra=extra, what="build of %s with %s" % (crate, SETS[name]))
    except base.CheckError as e:
        m = re.search(r"error(\[E\d+\])?: .*\n\s*--> [^\n]*prexel/src/[^\n]*", str(e))
        if m:
            raise Broken(m.group(0))
        raise
    return os.path.join(t, "debug", "vh" if crate == "harness" else crate)


def build_all():
    jobs = [("plain", n) for n in SETS] + [("harness", n) for n in SETS if n != "both"]

    def go(j):
        try:
            return build(*j)
        except Broken as e:
            return e
    return dict(zip(jobs, apps.spread(jobs, go, threads=8)))


def shape(listing):
    """What a listing says, without order and descriptions."""
    out = set()
    for group, entries in listing.items():
        for e in entries:
            out.add(json.dumps([group] + sorted((k, v) for k, v in e.items() if k != "description"), sort_keys=True))
    return out


def c28(prop, tier, seed):
    r = base.Report(prop, tier, seed)
    default = base.build_vh()
    built = build_all()
    for (crate, name), exe in list(built.items()):
        if isinstance(exe, Broken):
            if name == "both":
                raise base.CheckError("the default build fails: %s" % exe)
            r.violation("C28:build:%s:%s" % (crate, name), dict(features=SETS[name], error=str(exe)))
            del built[crate, name]
    built["harness", "both"] = default
    counts, lock, distinct = {}, threading.Lock(), set()

    def count(k, n=1):
        with lock:
            counts[k] = counts.get(k, 0) + n

    # names and their attributes
    for crate, kinds in (("harness", FULL), ("plain", PLAIN)):
        for kind in kinds:
            lib = apps.Library(default)
            want = shape(lib.ask(list=kind))
            lib.close()
            for name in SETS:
                if (crate, name) in built:
                    o = apps.Library(built[crate, name], args=("serve",))
                    got = shape(o.ask(list=kind))
                    o.close()
                    count("names", len(got))
                    if got != want:
                        r.violation("C28:names:%s:%s:%s" % (crate, name, kind), dict(features=SETS[name], modules=crate == "harness", missing=sorted(want - got)[:10], added=sorted(got - want)[:10]))
    # values and errors
    per = 200
    rounds = 5 if tier == "quick" else 200

    def compare(job):
        kind, k = job
        rnd = random.Random("%s/%s/%s" % (seed, kind, k))
        ref = apps.Library(default)
        others = {c: apps.Library(e, args=("serve",)) for c, e in built.items() if c != ("harness", "both") and (c[0] == "harness" or kind in PLAIN)}
        gen = {"f64c": "f64c", "i32u": "i32", "i64u": "i64", "i128u": "i128"}.get(kind, kind)
        try:
            for _ in range(rounds):
                texts = [t for t in ref.ask(gen=gen, seed=rnd.getrandbits(60), n=per) if "rand" not in t.lower()]
                q = dict(kind=kind, exprs=texts, vars=VARS if rnd.random() < 0.7 else [], implicit=rnd.random() < 0.6)
                try:
                    want = ref.ask(**q)
                except apps.Hung:
                    count("hung")
                    continue
                for w in want:
                    count("value" if "ok" in w else "error" if "err" in w else "panic")
                with lock:
                    distinct.update(hash((kind, t)) for t in texts)
                    if len(r.samples) < 6:
                        r.samples.append(dict(kind=kind, text=texts[0][:200], answer=want[0]))
                for c, lib in others.items():
                    try:
                        got = lib.ask(**q)
                    except apps.Hung as e:
                        with lock:
                            r.violation("C28:unanswered:%s:%s:%s" % (c[0], c[1], kind), dict(features=SETS[c[1]], why="no answer although the default build gives one", first=texts[:3]))
                        return
                    count("compared", len(got))
                    for t, a, b in zip(texts, want, got):
                        if "panic" in a and "panic" in b:
                            continue
                        if a != b:
                            with lock:
                                r.violation("C28:%s:%s:%s:%s" % (c[0], c[1], kind, t), dict(features=SETS[c[1]], modules=c[0] == "harness", kind=kind, text=t, implicit=q["implicit"], vars=q["vars"], default=a, this=b))
                            if len(r.violations) > 20:
                                return
        finally:
            ref.close()
            for lib in others.values():
                lib.close()
    apps.spread([(kind, k) for kind in FULL for k in range(2 if tier == "quick" else 4)], compare, threads=8)
    # contexts of the user's own: the workloads of other properties give the same verdicts
    for p in HISTORIES:
        seen = {}
        for name in ["both"] + [n for n in SETS if n != "both"]:
            exe = built.get(("harness", name))
            if exe is None or len(r.violations) > 20:
                continue
            h = base.Harness(p, "quick", seed, scale=0.2 if tier == "quick" else 2, budget=20 if tier == "quick" else 100, exe=exe)
            try:
                h.run()
                seen[name] = {v["sig"] for v in h.violations}
                count("user_defined", h.evaluations)
                r.evaluations += h.evaluations
                for v in h.violations:
                    if v["sig"] not in seen["both"] and not seen["both"]:
                        r.violation("C28:%s:%s" % (name, v["sig"]), dict(features=SETS[name], property=p, detail=v["detail"]), h.replay_cmd(v["index"]))
            finally:
                h.cleanup()
    r.evaluations += counts.get("compared", 0)
    r.distinct = len(distinct)
    r.coverage["observed"] = counts
    r.coverage["builds"] = sorted("%s:%s" % k for k in built)
    if not r.violations:
        for k, least in (("names", 2_000), ("value", 8_000), ("error", 5_000), ("compared", 80_000), ("user_defined", 20_000)):
            r.require(k, counts.get(k, 0), least)
    return r.finish("the four combinations of the docs and linked-hashmap features, with and without the number modules: the same names and attributes, the same value or error for each generated text, and the same verdicts on the workloads over user-defined contexts; distinct (context, text) pairs")
