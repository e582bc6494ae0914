"""mkbug.py FILE.py   writes /verif/seeded/<id>/ from a description.

The description defines  id, property, needs, breaks, edits = [(path, old, new), ...], demo (python source).
"""
import json, os, runpy, subprocess, sys, difflib

HEAD = '''import warnings
warnings.filterwarnings("ignore")
from loguru import logger
logger.remove()
import nidn
logger.remove()
import os
assert os.path.realpath(nidn.__file__).startswith(os.path.realpath(os.getcwd()) + "/"), nidn.__file__
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    out = f"/verif/seeded/{d['id']}"
    os.makedirs(out, exist_ok=True)
    patch = ""
    bypath = {}
    for path, old, new in d["edits"]:
        src = bypath.get(path) or open("/repo/" + path).read()
        n = src.count(old)
        assert n == 1, (d["id"], path, n, old)
        bypath[path] = src.replace(old, new)
    for path, new in bypath.items():
        a = open("/repo/" + path).read().splitlines(keepends=True)
        patch += "".join(difflib.unified_diff(a, new.splitlines(keepends=True), "a/" + path, "b/" + path))
    open(out + "/patch.diff", "w").write(patch)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], check=True)
    open(out + "/demo.py", "w").write(HEAD + d["demo"])
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
