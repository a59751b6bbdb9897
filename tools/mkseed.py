#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py...: write seeded/<id>/ from a spec and confirm it (build, stable tests,
demo on both trees, the property's check).  SPEC defines ID, PROP, EDITS=[(file, old, new)],
NEEDS, BREAKS, DEMO (python source run with /opt/venv/bin/python)."""
import sys, os, json, subprocess, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
t=$(mktemp -d) && cd "$t" || exit 3
/opt/venv/bin/python "$d/demo.py"; rc=$?
rm -rf -- "$t"
exit $rc
'''
tests = "--no-tests" not in sys.argv
for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    out = []
    try:
        r0 = sh("bash %s/demo.sh" % d, cwd=R); out.append("demo clean rc=%d" % r0.returncode)
        if r0.returncode: out.append((r0.stdout + r0.stderr)[-800:])
        for f, old, new in s["EDITS"]:
            p = os.path.join(R, f); t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh("bash /opt/vp/build.sh"); out.append("build rc=%d" % b.returncode)
        r1 = sh("bash %s/demo.sh" % d, cwd=R); out.append("demo patched rc=%d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-300:].strip()))
        c = sh("python3 -m sa.run %s" % s["PROP"], cwd=V); out.append("check rc=%d %s" % (c.returncode, [l for l in c.stdout.splitlines() if "FAIL" in l or "BROKEN" in l][:2]))
        if tests:
            sh("bash /opt/vp/test.sh /tmp/w/out.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            o = json.load(open("/tmp/w/out.json"))
            out.append("tests lost: %s" % sorted(base - set(o["passed"])))
    finally:
        sh("git -C /repo checkout -- .")
    print(s["ID"], "\n   " + "\n   ".join(out))
