"""Plant bugs: plant.py SPEC.py [id ...]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], demo=<python source>, needs, breaks), ...].
For each: apply to /repo, demo must pass before and fail after, the stable tests must pass, then the property's
check is run; /repo is restored. Seeds that are valid are written to /verif/seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil, runpy, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "ab7f0f5"     # the pinned commit: a planted bug has to change original lines
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: broken
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export PYTHONPYCACHEPREFIX="$T/pyc" PYTHONPATH=/repo PYTHONHASHSEED=0
timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)
def restore():
    sh("git", "-C", R, "checkout", "--", ".")

def demo(d):
    return sh("bash", os.path.join(d, "demo.sh"), cwd=R)

def one(s):
    assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo not clean"
    d = os.path.join(H, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO)
        open(os.path.join(tmp, "demo.py"), "w").write(s["demo"])
        r = demo(tmp)
        if r.returncode != 0:
            return f"demo fails on the clean tree: {r.stdout[-300:]}{r.stderr[-600:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit does not match exactly once ({t.count(old)}) in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        patch = sh("git", "-C", R, "diff").stdout
        open(os.path.join(tmp, "patch.diff"), "w").write(patch)
        for f in {e[0] for e in s["edits"]}:
            base = set(sh("git", "-C", R, "show", f"{BASE}:{f}").stdout.split("\n"))
            new = [l[1:] for l in sh("git", "-C", R, "diff", "-U0", "--", f).stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
            if any(l not in base for l in new):
                return f"changes lines that are not in the original: {[l for l in new if l not in base]}"
        r = demo(tmp)
        if r.returncode == 0:
            return "demo passes with the bug"
        t0 = time.time()
        c = sh("python3", os.path.join(H, "run.py"), s["property"], cwd=H)
        ct = time.time() - t0
        caught = c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout
        t = sh("bash", "/opt/vp/test.sh", os.path.join(tmp, "o.json"))
        o = json.load(open(os.path.join(tmp, "o.json")))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - set(o["passed"])
        if missing:
            return f"tests notice it ({len(missing)}): {sorted(missing)[:3]}; check {'caught' if caught else 'missed'}"
        os.remove(os.path.join(tmp, "o.json"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        return f"valid; check {'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode} in {ct:.0f}s" + ("" if caught else "\n" + c.stdout[-1500:])
    finally:
        restore()
        shutil.rmtree(tmp, ignore_errors=True)

seeds = runpy.run_path(sys.argv[1])["SEEDS"]
for s in seeds:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    try:
        print(s["id"], s["property"], one(s), flush=True)
    finally:
        restore()
