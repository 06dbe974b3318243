"""mkbug.py ID < spec (python dict): make seeded/ID from replacements in the repository"""
import ast, json, os, subprocess, sys
R = os.environ.get("VP_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = ast.literal_eval(sys.stdin.read())
d = V + "/seeded/" + sys.argv[1]
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec["edits"]:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
finally:
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write(spec["demo"].lstrip())
open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PYTHONHASHSEED=0 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=2 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
''')
