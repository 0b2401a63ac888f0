#!/usr/bin/env python3
"""Planted bugs: defines each one, writes /verif/seeded/<id>/, and (with --try) confirms it in a scratch copy of /repo.

usage: seedgen.py [--try] [--check] [id ...]"""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SEED_SCRATCH", "/tmp/seedwork")
from seedbugs import BUGS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def scratch():
    r = SCRATCH + "/repo"
    if not os.path.isdir(r):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(["cp", "-a", "/repo", r])
        for n in ("build", "test"):
            t = open("/opt/vp/%s.sh" % n).read().replace("/repo", r)
            open(SCRATCH + "/%s.sh" % n, "w").write(t)
    sh(["git", "-C", r, "checkout", "-q", "--", "."])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if sh(["git", "-C", r, "rev-parse", "HEAD"]).stdout.strip() != head:
        sh(["git", "-C", r, "pull", "-q"]); sh(["git", "-C", r, "fetch", "-q", "/repo"]); sh(["git", "-C", r, "checkout", "-q", head])
    return r

def write(bid, b):
    r = scratch()
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        t = open(p).read()
        n = b.get("count", {}).get(old, 1)
        assert t.count(old) == n or (n == 0 and t.count(old) > 0), (bid, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
    d = os.path.join(VERIF, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(b["demo"])
    json.dump({k: b[k] for k in ("crates", "rustflags", "deps", "profile", "run") if k in b}, open(d + "/demo.json", "w"), indent=1)
    shutil.copy(VERIF + "/tools/seed_demo_runner.py", d + "/run_demo.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run_demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    sh(["git", "-C", r, "checkout", "-q", "--", "."])
    return d

def confirm(bid, b):
    d = os.path.join(VERIF, "seeded", bid)
    r = scratch()
    p = sh(["bash", d + "/demo.sh"], cwd=r)
    ok0 = p.returncode == 0
    if not ok0: print(bid, "DEMO FAILS ON CLEAN:", p.stdout[-1500:]); return False
    a = sh(["git", "-C", r, "apply", d + "/patch.diff"])
    if a.returncode: print(a.stdout); return False
    t0 = time.time()
    p = sh(["bash", SCRATCH + "/build.sh"])
    okb = p.returncode == 0
    if not okb: print(bid, "BUILD FAILS", p.stdout[-2000:])
    p = sh(["bash", SCRATCH + "/test.sh", SCRATCH + "/out.json"])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = json.load(open(SCRATCH + "/out.json"))
    passed = set(out.get("passed", out.get("stable", [])))
    miss = base - passed
    if miss: print(bid, "TESTS FAIL", sorted(miss)[:5], len(miss))
    p = sh(["bash", d + "/demo.sh"], cwd=r)
    okd = p.returncode != 0
    print(bid, "clean demo", ok0, "build", okb, "tests", not miss, "patched demo nonzero", okd, "rc", p.returncode, "%.0fs" % (time.time() - t0))
    if not okd or p.returncode in (3,): print(p.stdout[-1500:])
    sh(["git", "-C", r, "checkout", "-q", "--", "."])
    return okb and not miss and okd and p.returncode != 3

def check(bid, b, prop=None):
    d = os.path.join(VERIF, "seeded", bid)
    r = scratch()
    a = sh(["git", "-C", r, "apply", d + "/patch.diff"])
    if a.returncode: print(a.stdout); return
    env = dict(os.environ, VP_REPO=r, VP_BUILD=SCRATCH + "/build", VP_EVID=SCRATCH + "/evid", VERIF_SEED="1", VERIF_TIER="quick")
    t0 = time.time()
    p = sh(["python3-vt", VERIF + "/checks/run.py", prop or b["property"]], cwd=VERIF, env=env)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    print(bid, prop or b["property"], "rc", p.returncode, "CAUGHT" if p.returncode == 1 and v else "MISSED", "%.0fs" % (time.time() - t0), (v or [""])[0][:200])
    if p.returncode not in (0, 1): print(p.stdout[-1500:])
    sh(["git", "-C", r, "checkout", "-q", "--", "."])

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for bid in args or list(BUGS):
        b = BUGS[bid]
        if "--nowrite" not in sys.argv: write(bid, b)
        if "--try" in sys.argv:
            if not confirm(bid, b): print(bid, "NOT KEPT"); continue
        if "--check" in sys.argv: check(bid, b)
        sys.stdout.flush()
