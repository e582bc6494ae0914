"""C24: the batch script trains, saves and plots every configuration of a folder."""
import os, sys, glob, hashlib, json, pickle, subprocess, tempfile
import numpy as np
from mon.core import Obs, Violation, require, REPO, VERIF
from mon.util import *
from mon.checks.c13_repro import one
from mon import traincase as TC

PROPERTY = "C24"
RULE = (
    "Folders of 1-4 configuration files (both design types, all model types, 1-3 frequencies and layers; partly with the same name; with other files, backups and subfolders beside them; called once or twice, with or without a trailing slash, folders with any characters in their names) are given to the real script "
    "in a process of its own, whose working directory is scratch. The monitor hashes the whole scratch tree before and after, loads every stored run and compares it with a direct training run of the same file, and compares every stored picture with the one drawn "
    "for that run alone in another process. Non-trivial: the folder had at least two configurations; distinct by case."
)
ASSUMPTIONS = ["results are compared to a relative 1e-7, pictures to 0.2 % of their mean range", "the script is started from a folder whose parent holds the results, as documented"]
BUDGET = {"quick": 40, "thorough": 500}
REQUIRED = {"configurations trained": 12, "pictures compared": 60}
PICTURES = 6


def cases(rng, tier):
    out = []
    for i in range(7 if tier == "quick" else 120):
        n = [2, 3, 2, 2, 3, 1, 4 if tier != "quick" else 2][i % 7]
        g = [one(rng) for k in range(n)]
        for d in g:
            d.update(iters=rng.choice([1, 2, 3]), noise=False)
        names = rng.choice([[f"run{k}" for k in range(n)], ["same"] * n, ["a b", "a.b", "a_b", "A"][:n], ["x", "x", "y", "y"][:n]])
        if i % 7 == 2:
            names = ["a b", "a.b", "a_b", "A"][:n]
        if i % 7 == 1:
            names = ["same"] * n
        out.append(dict(s=seed(rng), g=g, names=names, slash=rng.random() < 0.4, twice=i % 7 == 3, extras=rng.random() < 0.7, files=['cba', ['v1.', 'v1.0-', 'v1 '], ['_', 'é', ' '], ['run', 'Run', 'run.toml.']][i % 4], long=i % 3 == 1,
                        folder=["configs", "my [1st] configs", "configs.toml", " configs ", "a b", "*conf?"][i % 6]))
    return out


RUNNER = """
import sys, runpy
import mon.nocache
sys.argv = ["run_cfgs.py", sys.argv[1]]
runpy.run_path("%s/nidn/scripts/run_cfgs.py", run_name="__main__")
""" % REPO


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = hashlib.sha256(open(q, "rb").read()).hexdigest()
    return out


def apart(f):
    """f() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(("ok", f()))
        except BaseException as e:
            import traceback

            data = pickle.dumps(("error", traceback.format_exc()))
        with os.fdopen(w, "wb") as h:
            h.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        st, v = pickle.loads(h.read())
    os.waitpid(pid, 0)
    require(st == "ok", f"a direct run of the configuration failed: {v}")
    return v


def facts(r):
    import nidn

    e, m = nidn.model_to_eps_grid(r.model, r)
    return {
        "loss": np.array(r.results.loss_log, float), "l1": np.array(r.results.L1_errs, float),
        "best": np.array(r.best_loss, float).ravel() if "best_loss" in r.keys() else np.zeros(0),
        "eps": e.detach().numpy().ravel(),
    }


def same(a, b):
    return all(a[k].shape == b[k].shape and np.all(np.abs(a[k] - b[k]) <= 1e-7 * (1 + np.abs(b[k]))) for k in a)


def run(d):
    import toml, nidn
    from dotmap import DotMap

    o = Obs()
    root = tempfile.mkdtemp(dir=os.environ["MON_SCRATCH"])
    work, cfgs, ref = (os.path.join(root, x) for x in ("work", d["folder"], "ref"))
    for x in (work, cfgs, ref):
        os.mkdir(x)
    files = []
    for k, (x, name) in enumerate(zip(d["g"], d["names"])):
        c = TC.base_cfg(x)
        c.name = name
        p = os.path.join(cfgs, f"{d.get('files', 'cba')[k % 3]}{k}.toml")
        with open(p, "w") as f:
            toml.dump({q: c[q] for q in c.keys()}, f)
            if d.get("long"):
                f.write("\n# " + "\n# ".join("notes about this run " * 6 for _ in range(60)) + "\n")
        files.append(p)
    if d["extras"]:
        os.mkdir(os.path.join(cfgs, "old"))
        for n in ("notes.txt", "a.toml.bak", "old/b.toml", "c.tom"):
            with open(os.path.join(cfgs, n), "w") as f:
                f.write("this is no configuration = [")
    before = tree(root)
    env = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    earlier = {}
    for call in range(2 if d["twice"] else 1):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", RUNNER, ("../" + d["folder"] if d["s"] % 2 else cfgs) + ("/" if d["slash"] else "")], cwd=work, env=env, capture_output=True, text=True, timeout=200)
        require(p.returncode == 0, f"the script ended with {p.returncode} for the configurations {d['names']}: {p.stderr[-600:]}")
        o.add("script runs")
        now = tree(root)
        for q, h in {**before, **earlier}.items():
            require(now.get(q) == h, f"the script changed or removed {q}")
        new = sorted(set(now) - set(before) - set(earlier))
        require(all(q.startswith("results/") for q in new), f"the script wrote outside of the results folder: {[q for q in new if not q.startswith('results/')][:4]}")
        folders = {}
        for q in new:
            folders.setdefault(os.path.dirname(q), []).append(os.path.basename(q))
        require(len(folders) == len(files), f"{len(files)} configurations named {d['names']} gave {len(folders)} result folders: {sorted(folders)}")
        runs = {}
        for F, fs in folders.items():
            pk = [f for f in fs if f.endswith(".pk")]
            png = [f for f in fs if f.endswith(".png")]
            require(len(pk) == 1 and len(png) == PICTURES and len(fs) == PICTURES + 1, f"the result folder {F} holds {sorted(fs)} instead of one run and {PICTURES} plots")
            r = nidn.load_run(os.path.join(root, F, pk[0]))
            runs[F] = (r, facts(r), sorted(png))
        left = dict(runs)
        for k, f in enumerate(files):

            def direct():
                c = DotMap(toml.load(f))
                q = os.path.join(ref, f"{call}_{k}/")
                os.makedirs(q)
                nidn.run_training(c)
                x = facts(c)
                cwd = os.getcwd()
                os.chdir(work)
                nidn.save_all_plots(c, q)
                os.chdir(cwd)
                return x

            x = apart(direct)
            name = d["names"][k]
            hit = [F for F, (r, y, _) in left.items() if r.name == name and same(y, x)]
            require(hit, f"no stored run has the name {name} and the results of a direct training of {os.path.basename(f)} (loss {x['loss']}); stored: {[(r.name, list(y['loss'])) for r, y, _ in left.values()]}")
            o.add("configurations trained")
            F = hit[0]
            r, _, png = left.pop(F)
            base = toml.load(f)
            for q, v in base.items():
                if q == "PER_LAYER_THICKNESS" and len(v) == 1:
                    v = v * base["N_layers"] if len(r[q]) > 1 else v
                require(r[q] == v, f"the stored run of {name} has {q} = {r[q]} and the file {v}")
            require(name in os.path.basename(F), f"the result folder {F} does not carry the name {name}")
            mine = sorted(os.listdir(os.path.join(ref, f"{call}_{k}")))
            require(mine == png, f"plots {png} in {F}; a direct run writes {mine}")
            import matplotlib.image as mi

            for q in png:
                a, b = mi.imread(os.path.join(root, F, q)), mi.imread(os.path.join(ref, f"{call}_{k}", q))
                dev = 1.0 if a.shape != b.shape else float(np.mean(np.abs(a - b)))
                o.peak("picture deviation", dev)
                require(dev < 0.002, f"the stored plot {q} of {name} differs from the plot of that run alone (mean deviation {dev:.4f})")
                o.add("pictures compared")
        earlier = {q: h for q, h in now.items() if q.startswith("results/")}
        import shutil

        shutil.rmtree(ref)
        os.mkdir(ref)
    o.nontrivial = len(files) > 1
    o.sample = {"names": d["names"], "folders": sorted(map(os.path.basename, runs))}
    return o
