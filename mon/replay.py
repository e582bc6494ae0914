import mon.nocache
import sys, os, json, glob, tempfile, shutil, importlib
from mon import core

d = json.load(open(sys.argv[1]))
name = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(core.VERIF, "mon/checks", d["property"].lower() + "_*.py"))][0]
s = tempfile.mkdtemp(prefix="nidnmon_")
os.environ["MON_SCRATCH"] = s
os.environ["MPLCONFIGDIR"] = s
try:
    core._setup_env()
    core._MOD = importlib.import_module("mon.checks." + name)
    r = core._work((0, d["case"]))
    print(r["status"], r.get("msg", ""))
    if r["obs"]:
        print(r["obs"].count, r["obs"].sample)
finally:
    shutil.rmtree(s, ignore_errors=True)
sys.exit(1 if r["status"] == "violation" else 0)
