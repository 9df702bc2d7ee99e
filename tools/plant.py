#!/usr/bin/env python3
"""Makes and confirms planted bugs.

  plant.py make SPEC.py [ID...]    SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs,
                                   what_it_breaks, demo=<python source>)]; each is built in a scratch copy of /repo,
                                   confirmed (applies, tests pass, demo tells the difference, original lines changed),
                                   and kept under seeded/<id>/.
  plant.py catch [--tier T] [--all] [ID...]   runs the check of each bug's property (--all: every check) on a scratch
                                   copy with the patch applied, and prints which checks report a violation.
"""
import argparse, json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "c22290a"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mpl",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
ENV.pop("VERIF_SEED", None)

def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def scratch(source="/repo"):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", source + "/.", d], check=True)
    return d

def tests(d):
    x = os.path.join(d, ".junit.xml")
    e = dict(ENV, PYTHONPATH=d)
    rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300",
                  "--tb=short", "-o", "junit_family=xunit2", "--junitxml=" + x, "trikit"], d, e)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(x).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in t):
            ok.add(t.get("classname") + "::" + t.get("name"))
    return sorted(STABLE - ok)

def demo(folder, d):
    e = dict(ENV, PYTHONPATH=d)
    e.pop("PYTHONPATH")
    return sh(["bash", os.path.join(folder, "demo.sh")], d, e, 300)

def make(b):
    d = scratch()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %r" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff", "--no-color"], d)
        # every removed line must stem from the original repository
        rc, bl = sh(["git", "diff", "-U0", "--no-color"], d)
        import re
        orig = 0; f = None
        for line in bl.splitlines():
            m = re.match(r"--- a/(.*)", line)
            if m: f = m.group(1)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                n = int(m.group(2) or 1)
                if n == 0: continue
                rc, bb = sh(["git", "blame", "-s", "-L", "%s,+%d" % (m.group(1), n), "HEAD", "--", f], d)
                rc, anc = sh(["git", "rev-list", BASE + "..HEAD", "--abbrev-commit"], d)
                fixes = set(x[:7] for x in anc.split())
                for l in bb.splitlines():
                    if l.split()[0].lstrip("^")[:7] not in fixes: orig += 1
                    elif l.split()[1:][1:]: print(b["id"], "  touches a repaired line:", l)
        if not orig:
            return b["id"], "no line of the original repository changed"
        out = os.path.join(d, ".seed"); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the behaviour is right; nonzero: it is broken\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexport MPLCONFIGDIR=$(mktemp -d)\ntrap \'rm -rf "$MPLCONFIGDIR"\' EXIT\n/opt/venv/bin/python -W ignore "$here/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
        rc1, o1 = demo(out, d)
        c = scratch()
        try: rc0, o0 = demo(out, c)
        finally: shutil.rmtree(c)
        if rc0 != 0: return b["id"], "demo fails on the unchanged tree:\n" + o0[-1500:]
        if rc1 == 0: return b["id"], "demo does not notice"
        bad = tests(d)
        if bad: return b["id"], "stable tests fail: %s" % bad
        dst = os.path.join(V, "seeded", b["id"])
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return b["id"], "kept   (demo: %s)" % (o1.strip().splitlines() or ["?"])[-1][:140]
    finally:
        shutil.rmtree(d)

def catch(bid, tier, props, seed):
    d = scratch()
    try:
        rc, o = sh(["git", "apply", os.path.join(V, "seeded", bid, "patch.diff")], d)
        if rc: return bid, {"apply": o}
        prop = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))["property"]
        res = {}
        ev = tempfile.mkdtemp(prefix="ev-", dir="/tmp")
        for p in (props or [prop]):
            e = dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_SEED=str(seed), PYTHONPATH="")
            rc, o = sh([sys.executable, os.path.join(V, "harness/run.py"), p, "--tier", tier], V, e, 4000)
            res[p] = (rc, [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3] if rc else "")
        shutil.rmtree(ev)
        return bid, res
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    a = argparse.ArgumentParser(); a.add_argument("what"); a.add_argument("ids", nargs="*")
    a.add_argument("--tier", default="quick"); a.add_argument("--all", action="store_true"); a.add_argument("--seed", default="1")
    a.add_argument("-j", type=int, default=2)
    o = a.parse_intermixed_args()
    if o.what == "make":
        bugs = runpy.run_path(o.ids[0])["BUGS"]
        want = o.ids[1:]
        bugs = [b for b in bugs if not want or b["id"] in want]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, bugs): print(*r, flush=True)
    else:
        ids = o.ids or sorted(os.listdir(os.path.join(V, "seeded")))
        props = ["C%02d" % i for i in range(1, 40)] if o.all else None
        missed = 0
        with ThreadPoolExecutor(o.j) as ex:
            for bid, res in ex.map(lambda b: catch(b, o.tier, props, o.seed), ids):
                hit = sorted(p for p, r in res.items() if r[0] == 1)
                other = {p: r for p, r in res.items() if r[0] not in (0, 1)}
                print(bid, "CAUGHT by " + ",".join(hit) if hit else "MISSED", other or "", flush=True)
                for p in hit[:1]: print("     ", *[x[:200] for x in res[p][1]], sep="\n      ")
