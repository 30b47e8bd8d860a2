#!/usr/bin/env python3
"""dev/mkseed.py SEED...  Builds seeded/<id>/ from dev/seeds/<id>.py, which defines
PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source, exits nonzero when broken).
Confirms it in a scratch copy: demo passes before, fails after; stable tests pass after (unless --notest)."""
import json, os, runpy, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONPATH="$PWD"
unset DATAPROFILER_SEED
S=$(mktemp -d) || exit 1
trap 'rm -rf "$S"' EXIT
SCRATCH="$S" /opt/venv/bin/python "$D/demo.py"
'''


def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
    m = runpy.run_path(os.path.join(ROOT, "dev/seeds", sid + ".py"))
    out = os.path.join(ROOT, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.py", "w").write(m["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    d = "/tmp/seed_" + sid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    r0 = sh("bash %s/demo.sh" % out, d)
    for f, old, new in m["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(out + "/patch.diff", "w").write(sh("git diff", d).stdout)
    r1 = sh("bash %s/demo.sh" % out, d)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(sid, "demo before", r0.returncode, "after", r1.returncode, r1.stdout.strip().splitlines()[-1:], flush=True)
    if r0.returncode:
        print(r0.stdout[-1500:])
    if ok and "--notest" not in sys.argv:
        r = sh("bash %s/dev/tst_copy.sh %s" % (ROOT, d), "/")
        print(sid, r.stdout.strip(), flush=True)
        ok = r.returncode == 0
    shutil.rmtree(d, ignore_errors=True)
    if not ok:
        print(sid, "NOT KEPT (yet)")
        if "--notest" not in sys.argv:
            shutil.rmtree(out)
