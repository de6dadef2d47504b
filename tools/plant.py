#!/usr/bin/env python3
"""Develop planted bugs: build, qualify and (optionally) run the checks against them.

    plant.py make DEFS.py [id...]     qualify the bugs defined in DEFS.py and write seeded/<id>/
    plant.py check [id...]            run each planted bug's check against a patched scratch copy
    plant.py check --prop P [id...]   run the check of property P instead

DEFS.py defines BUGS, a list of dicts with id, property, file, edits (list of (old, new)),
needs, what, demo (python text; exit code decides).
Everything happens in scratch copies below /tmp/plant; /repo is left alone.
No registered check uses this file.
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SEED = "/verif/seeded"
SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"
BASE = "610f05d"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             MPLCONFIGDIR="/opt/vp/mplconfig")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(name):
    d = os.path.join(SCR, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(SCR, exist_ok=True)
    sh("git worktree prune", "/repo")
    rc, o = sh("cp -a /repo %s" % d)
    assert rc == 0, o
    return d


def original_lines(d, path, diff):
    """Are all removed lines of the patch lines of the base commit?"""
    rc, bl = sh("git blame -s %s" % path, "/repo")
    base = [l.startswith("^") or l.startswith(BASE[:7]) for l in bl.splitlines()]
    ok = True
    n = 0
    for line in diff.splitlines():
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if n == 0 or line.startswith("\\"):
            continue
        if line.startswith("-"):
            ok &= base[n - 1]
            n += 1
        elif not line.startswith("+"):
            n += 1
    return ok and ("\n-" in diff.split("@@", 2)[-1])


def make(bug):
    i = bug["id"]
    d = copy(i)
    try:
        p = os.path.join(d, bug["file"])
        s = open(p).read()
        for old, new in bug["edits"]:
            if s.count(old) != 1:
                return i, "edit matches %d times: %r" % (s.count(old), old[:60])
            s = s.replace(old, new)
        open(p, "w").write(s)
        rc, diff = sh("git diff", d)
        if not original_lines(d, bug["file"], diff):
            return i, "touches no original line / touches lines of fix commits"
        out = os.path.join(SCR, i + "-demo")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"])
        jit = "" if bug.get("jit") else "export NUMBA_DISABLE_JIT=1\n"
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n" + jit +
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % out, "/repo", {"PYTHONPATH": "/repo"})
        if rc != 0:
            return i, "demo fails on the unchanged tree: " + o[-400:]
        rc, o = sh("bash %s/demo.sh" % out, d, {"PYTHONPATH": d})
        if rc == 0:
            return i, "demo passes with the patch"
        last = o.strip().splitlines()[-1][:150] if o.strip() else ""
        rc, o = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -15" % PY, d, {"PYTHONPATH": d})
        if not re.search(r"\b39 passed", o) or "failed" in o or "error" in o.lower().replace("rerror", ""):
            return i, "tests fail: " + " | ".join(l for l in o.splitlines() if "FAILED" in l or "passed" in l)[:300]
        dst = os.path.join(SEED, i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        shutil.rmtree(out)
        return i, "OK   (demo: %s)" % last
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, prop=None):
    meta = json.load(open(os.path.join(SEED, i, "meta.json")))
    prop = prop or meta["property"]
    d = copy("chk-" + i + "-" + prop)
    try:
        rc, o = sh("git apply %s/%s/patch.diff" % (SEED, i), d)
        if rc:
            return i, prop, "patch does not apply"
        rc, o = sh("%s harness/driver.py %s" % (PY, prop), "/verif",
                   {"QMIX_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick",
                    "VERIF_EVIDENCE": os.path.join(SCR, "evidence-" + i + "-" + prop)})
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        return i, prop, "%s rc=%d %s" % ("caught" if rc == 1 and v else "MISSED" if rc == 0 else "ERROR", rc,
                                          "" if rc == 1 else o.strip().splitlines()[-1][:200] if o.strip() else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        ids = sys.argv[3:]
        bugs = [b for b in bugs if not ids or b["id"] in ids]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, bugs):
                print(*r, flush=True)
    else:
        a = sys.argv[2:]
        prop = None
        if a and a[0] == "--prop":
            prop, a = a[1], a[2:]
        ids = a or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: check(i, prop), ids):
                print(*r, flush=True)
