"""Author a planted bug: seed.py ID  (reads tools-independent spec files in /tmp/seedwork/ID/).
spec.json: {"property","needs","what_it_breaks","edits":[[file,old,new],...]}, demo.py beside it.
Makes patch.diff, copies demo files to /verif/seeded/ID, then confirms: demo clean=0, patched!=0,
repo tests pass when patched, and runs the property's quick check on the patched tree."""
import json, os, shutil, subprocess, sys
ID = sys.argv[1]
skip_suite = "-s" in sys.argv
skip_check = "-n" in sys.argv
W = f"/tmp/seedwork/{ID}"
spec = json.load(open(f"{W}/spec.json"))
R = os.environ.get("SEED_REPO", "/repo")
ENV = {**os.environ, "PYTHONPATH": f"{R}/src", "VP_DEV_SRC": f"{R}/src", "VP_EVIDENCE_DIR": "/tmp/seed-evidence", "REDIS_VERSION": "memory"}
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, env=ENV, **k)
assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo dirty"
orig = {}
base_ok = True
try:
    for f, old, new in spec["edits"]:
        p = f"{R}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", R, "diff").stdout
finally:
    sh("git", "-C", R, "checkout", "--", ".")
# removed lines must be original ones
for f in {e[0] for e in spec["edits"]}:
    base = sh("git", "-C", R, "show", f"a6a81c8:{f}").stdout.splitlines()
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:] not in base and l[1:].strip():
            print("WARNING: line not in base:", l[1:])
D = f"/verif/seeded/{ID}"
os.makedirs(D, exist_ok=True)
open(f"{D}/patch.diff", "w").write(diff)
shutil.copy(f"{W}/demo.py", f"{D}/demo.py")
open(f"{D}/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{D}/meta.json", "w"), indent=1)
c = sh("bash", f"{D}/demo.sh", cwd=R)
print("demo clean:", c.returncode, (c.stdout + c.stderr)[-400:] if c.returncode else "")
assert sh("git", "-C", R, "apply", f"{D}/patch.diff").returncode == 0
try:
    c = sh("bash", f"{D}/demo.sh", cwd=R)
    print("demo patched:", c.returncode, (c.stdout + c.stderr)[-300:])
    if not skip_suite:
        c = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:randomly", "-o",
               "addopts=--import-mode=importlib", "-n", "4", "--timeout=60", "tests", cwd=R)
        print("suite:", c.stdout[-600:])
    if not skip_check:
        for prop in [spec["property"]] + spec.get("also", []):
            c = sh("/opt/venv/bin/python", "check.py", prop, "--tier", "quick", cwd="/verif")
            print("check", prop, "rc", c.returncode, c.stdout[-700:])
finally:
    sh("git", "-C", R, "checkout", "--", ".")
