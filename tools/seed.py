#!/usr/bin/env python3
"""Plant, verify and try seeded bugs (never used by a check).

  seed.py new ID PROP FILE 'needs' 'what'   copy /repo's current diff into seeded/ID/patch.diff (then undo it)
  seed.py verify ID...   in a scratch copy: demo passes clean; patch applies, builds, passes the tests; demo fails
  seed.py catch ID...    apply to /repo, run the property's quick check, undo
  seed.py quiet ID...    quick checks in presence of a comment line at the end of the patched files
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
SCRATCH = "/tmp/seedwork"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    r = SCRATCH + "/repo"
    if not os.path.exists(r):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(["cp", "-a", "/repo", r], "/")
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    sh("git fetch -q /repo HEAD; git checkout -qf %s; git checkout -q -- ." % head, r)
    for n in ("build", "test"):
        t = open("/opt/vp/%s.sh" % n).read().replace("cd /repo", "cd " + r).replace("/repo/target", r + "/target")
        open("%s/%s.sh" % (SCRATCH, n), "w").write(t)
    return r


def passed(path):
    o = json.load(open(path))
    for k in ("passed", "pass", "stable"):
        if k in o:
            return set(o[k])
    raise SystemExit("results?")


def verify(ids):
    r = scratch()
    base = passed("/opt/vp/BASELINE.json")
    ok = True
    todo = []
    sh("bash %s/build.sh" % SCRATCH, r)
    for i in ids:
        p = sh(["bash", "%s/%s/demo.sh" % (S, i)], r, timeout=300)
        print(i, "demo clean", p.returncode, flush=True)
        if p.returncode != 0:
            print(p.stdout[-3000:])
            ok = False
        else:
            todo.append(i)
    for i in todo:
        sh("git checkout -q -- .", r)
        p = sh(["git", "apply", "%s/%s/patch.diff" % (S, i)], r)
        if p.returncode:
            print(i, "PATCH", p.stdout)
            ok = False
            continue
        p = sh("bash %s/build.sh" % SCRATCH, r)
        if p.returncode:
            print(i, "BUILD", p.stdout[-3000:])
            ok = False
            continue
        sh("bash %s/test.sh %s/o.json" % (SCRATCH, SCRATCH), r)
        miss = base - passed(SCRATCH + "/o.json")
        p = sh(["bash", "%s/%s/demo.sh" % (S, i)], r, timeout=300)
        bad = miss or p.returncode == 0
        ok &= not bad
        print(i, "BAD" if bad else "good", "tests missing %s; demo patched %d: %s" % (sorted(miss), p.returncode, p.stdout.strip()[-200:]), flush=True)
    sh("git checkout -q -- .", r)
    return ok


def catch(ids):
    res = {}
    for i in ids:
        m = json.load(open("%s/%s/meta.json" % (S, i)))
        p = sh(["git", "apply", "%s/%s/patch.diff" % (S, i)], "/repo")
        if p.returncode:
            print(i, "PATCH", p.stdout)
            continue
        try:
            p = sh(["python3", V + "/check.py", m["property"]], V, timeout=1500)
        finally:
            sh("git checkout -- .", "/repo")
        res[i] = p.returncode
        print(i, m["property"], {0: "MISSED", 1: "caught"}.get(p.returncode, "NO ANSWER"), p.stdout.strip()[:600].replace("\n", "\n    "), flush=True)
    return res


def new(i, prop, needs, what):
    d = "%s/%s" % (S, i)
    os.makedirs(d, exist_ok=True)
    repo = os.environ.get("MK_REPO", "/repo")
    diff = sh("git diff", repo).stdout
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    sh("git checkout -- .", repo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    a = sys.argv
    ids = a[2:] or sorted(os.listdir(S))
    if a[1] == "verify":
        sys.exit(0 if verify(ids) else 1)
    elif a[1] == "catch":
        catch(ids)
    elif a[1] == "new":
        new(*a[2:])
