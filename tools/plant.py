"""plant.py [ID...]: builds /verif/seeded/<id>/ from tools/bugs.py, confirms each in a scratch copy
(compiles, tests pass, demonstration passes without and fails with the change)
and runs the property's check against it (VERIF_REPO is the scratch copy)."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from bugs import BUGS
PY = "/opt/venv/bin/python"
nocheck = "--nocheck" in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith("-")]
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1"}
DEMO = '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
for b in BUGS:
    if want and b["id"] not in want: continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        r = tmp + "/r"
        demo = lambda: subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
        ok0 = demo()
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        ok1 = demo()
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tests = t.stdout.strip().splitlines()[-1]
        print("%-28s %s demo %d/%d tests %s" % (b["id"], b["property"], ok0.returncode, ok1.returncode, tests), flush=True)
        if ok0.returncode: print(ok0.stdout[-600:])
        if not ok0.returncode and ok1.returncode and t.returncode == 0 and not nocheck:
            c = subprocess.run(["python3", os.path.join(V, "harness/check.py"), b["property"]], cwd=V, env={**os.environ, "VERIF_REPO": r, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = c.stdout.strip().splitlines()
            print("    check rc=%d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and last[-1].startswith("VIOLATION property=" + b["property"]) else "MISSED " + (last[-1] if last else "")), [l for l in last if "bad:" in l][:1] or "", flush=True)
    finally:
        shutil.rmtree(tmp)
