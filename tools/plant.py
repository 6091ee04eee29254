"""Make /verif/seeded/<id> from an edit of /repo and confirm its demonstration.

usage: plant.py SPEC.py   where SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, FILE, OLD, NEW (or EDITS=[(file, old, new)])
and DEMO (the python text of the demonstration; prints and exits non-zero on breakage).
The edit is made in a scratch clone; the demo is run with that clone first on PYTHONPATH.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

spec = runpy.run_path(sys.argv[1])
edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
wt = os.path.join(tmp, "repo")
out = os.path.join("/verif/seeded", spec["ID"])
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for f, old, new in edits:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# exit 0 when the property holds on the demonstrated input\n'
                'd="$(cd "$(dirname "$0")" && pwd)"\nw="$(mktemp -d)"\ntrap \'rm -rf "$w"\' EXIT\n'
                'export HOME="$w" TMPDIR="$w" PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 LITDATA_DISABLE_VERSION_CHECK=1\n'
                'export DATA_OPTIMIZER_CACHE_FOLDER="$w/oc" DATA_OPTIMIZER_DATA_CACHE_FOLDER="$w/od"\n'
                'cd "$w" && timeout 240 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)

    def demo(path):
        e = dict(os.environ)
        if path:
            e["PYTHONPATH"] = os.path.join(path, "src")
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], env=e, capture_output=True, text=True, cwd="/repo")
        return r.returncode, (r.stdout + r.stderr)[-700:]

    a, b = demo(None), demo(wt)
    print("clean:", a[0], a[1] if a[0] else "", "\npatched:", b[0], b[1])
    ok = a[0] == 0 and b[0] != 0
    if ok and "--tests" in sys.argv:
        tests = sys.argv[sys.argv.index("--tests") + 1:] or ["tests"]
        e = dict(os.environ, PYTHONPATH=os.path.join(wt, "src") + ":/opt/vp/plugin", OMP_NUM_THREADS="1", HF_HUB_OFFLINE="1",
                 PYTHONDONTWRITEBYTECODE="1", LITDATA_WORK=tmp)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "litdata_isolate",
                            "-n", "4", "--timeout=120", "--color=no", "--basetemp", tmp + "/pt", *tests], cwd=wt, env=e,
                           capture_output=True, text=True)
        print("\n".join(r.stdout.splitlines()[-12:]))
    print("OK" if ok else "NOT OK", spec["ID"])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
