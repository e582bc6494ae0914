"""C13: training runs are reproducible from their configuration."""
import copy, json, os, pickle, random, subprocess, sys
import numpy as np
from mon.core import Obs, Violation, Skip, require, REPO, VERIF
from mon.util import *
from mon import traincase as TC

PROPERTY = "C13"
RULE = (
    "Groups of 3 training configurations (siren/nerf/voxel, regression/classification, TRCWA/FDTD, noise, seeds, log/linear) are trained alone, again after other runs and random draws in the "
    "same process, and in reversed order in a new process with another hash seed; logs, parameters and permittivities of equal configurations are compared, "
    "and with another seed they have to differ; equal configurations holding equal models, and reused and new configurations, are compared likewise. Further cases continue from a given model (first recorded evaluation = given parameters) and compare the settings before and after. "
    "Non-trivial: the design changed during training; distinct by loss history."
)
ASSUMPTIONS = ["single-threaded numerics; results are compared to a relative 1e-7, unseeded randomness is far larger"]
BUDGET = {"quick": 40, "thorough": 500}
REQUIRED = {"runs compared": 15, "runs compared across processes": 5}


def one(rng, fdtd=False):
    m = rng.choice(["siren", "nerf", "voxel", "class"])
    d = dict(s=seed(rng), mk=m, model=m if m != "class" else rng.choice(["siren", "nerf"]), type="classification" if m == "class" else "regression",
             nl=rng.choice([1, 2, 3]), nf=rng.choice([1, 2, 3]), iters=rng.choice([2, 3]), lr=1e-3 if m != "voxel" else 0.5, thick=[rnd(rng, 0.1, 1)], L=rng.choice([1.0, 2.0]),
             dist=rng.choice(["linear", "log"]), seed=rng.choice([0, 1, 7, 100, rng.randrange(10**6)]), noise=rng.random() < 0.5, noise_scale=rng.choice([0.001, 0.05]), abs=rng.random() < 0.3,
             nx=1, ny=1, regw=0.1)
    if fdtd:
        d.update(mk="siren", model="siren", type="regression", solver="FDTD", nl=1, nf=1, iters=2, thick=[0.5], niter=90)
    elif rng.random() < 0.2 and m != "class":
        d.update(nx=6, ny=6, ng=9, nl=1, nf=1, over=rng.choice([1, 2]))
    return d


def cases(rng, tier):
    out = []
    for i in range(8 if tier == "quick" else 120):
        out.append(dict(part="group", s=seed(rng), g=[one(rng, fdtd=True)] if i % 8 == 0 else [one(rng) for k in range(3)], hs=rng.randrange(1000)))
    for i in range(10 if tier == "quick" else 200):
        out.append(dict(part="given", s=seed(rng), d=dict(one(rng), noise=i % 4 != 3)))
        out.append(dict(part="retuned", s=seed(rng), d=one(rng), wl=[rnd(rng, 0.5, 2), rnd(rng, 3, 11)], nf=rng.choice([1, 2, 4])))
    for i in range(24 if tier == "quick" else 600):
        out.append(dict(part="continue", s=seed(rng), d=one(rng), changed=rng.random() < 0.5))
    return out


def train(d):
    import nidn

    c = TC.base_cfg(d)
    with TC.Recorder() as rec:
        r = nidn.run_training(c)
    return r, rec


def facts(r):
    out = {"loss": list(map(float, r.results.loss_log)), "l1": list(map(float, r.results.L1_errs))}
    p = []
    for v in r.model.state_dict().values():
        a = v.detach().numpy().ravel()
        if np.iscomplexobj(a):
            a = a.view(a.real.dtype)
        p += [float(x) for x in a[:50]] + [float(np.sum(np.abs(a)))]
    out["params"] = p
    return out


def differ(a, b, tol=1e-7):
    for k in a:
        x, y = np.array(a[k]), np.array(b[k])
        if x.shape != y.shape:
            return f"{k}: {len(x)} and {len(y)} values"
        if not np.allclose(x, y, rtol=tol, atol=tol):
            i = int(np.argmax(np.abs(x - y)))
            return f"{k}[{i}]: {x[i]!r} and {y[i]!r}"
    return None


def disturb(g):
    import torch

    for _ in range(int(g.integers(1, 6))):
        torch.rand(3)
        np.random.rand(2)
        random.random()
    if g.random() < 0.5:
        torch.manual_seed(int(g.integers(1e6)))
        np.random.seed(int(g.integers(1e6)))
        random.seed(int(g.integers(1e6)))


def settings(c):
    """user-visible plain settings of a configuration"""
    return {k: copy.deepcopy(v) for k, v in c.items() if isinstance(v, (int, float, str, bool, list)) or v is None}


def run(case):
    import nidn, torch

    g = gen(case)
    o = Obs()
    if case["part"] == "group":
        first = []
        for d in case["g"]:
            r, rec = train(d)
            first.append(facts(r))
            ev = rec.evals()
            o.add("runs whose design changed", not TC.same(ev[0], ev[-1]))
        # with a history, permuted
        for k in g.permutation(len(case["g"])):
            disturb(g)
            r, _ = train(case["g"][k])
            x = differ(first[k], facts(r))
            require(x is None, f"the same configuration gave different results after other runs: {x}")
            o.add("runs compared")
        # another process, reversed
        env = dict(os.environ, PYTHONHASHSEED=str(case["hs"]), PYTHONPATH=REPO + ":" + VERIF, OMP_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "mon.checks.c13_repro"], input=json.dumps(case["g"][::-1]), capture_output=True, text=True, env=env, cwd=os.environ["MON_SCRATCH"], timeout=200)
        lines = [l for l in p.stdout.splitlines() if l.startswith("FACTS ")]
        if p.returncode != 0 or not lines:
            raise Violation(f"the runs fail in a new process: {p.stderr[-800:]}")
        other = json.loads(lines[0][6:])[::-1]
        for k, f in enumerate(other):
            x = differ(first[k], f)
            require(x is None, f"the same configuration gave different results in a new process: {x}")
            o.add("runs compared across processes")
        # another seed
        d = dict(case["g"][-1])
        d["iters"] = 1
        a = facts(train(d)[0])
        for step in (1, int(g.choice([10, 100, 1000, 10000])), int(2 ** g.integers(4, 31)), int(g.integers(2, 5000))):
            x = dict(d, seed=d["seed"] + step)
            require(differ(a, facts(train(x)[0])) is not None, f"seeds {d['seed']} and {x['seed']} gave the same design")
            o.add("seed pairs compared")
        for d in case["g"]:
            o.seen("kind", (d["mk"], d.get("solver", "TRCWA"), d["noise"]))
        o.sig = [f["loss"] for f in first]
        o.sample = {"losses": [f["loss"] for f in first]}
        return o
    d = case["d"]
    if case["part"] == "given":  # equal configurations which hold equal models
        r, _ = train(d)
        a, b = (pickle.loads(pickle.dumps(r)) for _ in range(2))  # (a deep copy of a configuration shares its model)
        disturb(g)
        a = facts(nidn.run_training(a))
        disturb(g)
        torch.rand(int(g.integers(1, 9)))
        b = facts(nidn.run_training(b))
        x = differ(a, b)
        require(x is None, f"two runs with equal configurations and given models differ: {x}")
        o.add("runs from given models compared")
        o.seen("kind", (d["mk"], d["noise"]))
        o.sig = a["loss"]
        return o
    if case["part"] == "retuned":  # a configuration that was trained, then changed, is as good as a new one
        r, _ = train(d)
        d2 = dict(d, wl=case["wl"], nf=case["nf"])
        new = TC.base_cfg(d2)
        for k in ("physical_wavelength_range", "N_freq", "target_reflectance_spectrum", "target_transmittance_spectrum"):
            r[k] = copy.deepcopy(new[k])
        del r["model"]
        a, b = facts(nidn.run_training(r)), facts(nidn.run_training(new))
        x = differ(a, b)
        require(x is None, f"a configuration that was used before and changed gives another result than a new one: {x}")
        o.add("reused configurations compared")
        o.seen("kind", (d["mk"], d["noise"]))
        o.sig = a["loss"]
        return o
    c = TC.base_cfg(d)
    before = settings(c)
    with TC.Recorder() as rec:
        r = nidn.run_training(c)
    ev0 = rec.evals()
    after = settings(r)

    def same_settings(a, b, what):
        for k, v in a.items():
            if k == "PER_LAYER_THICKNESS":
                x, y = list(a[k]), list(b[k])
                n = r.N_layers
                x, y = (x * n if len(x) == 1 else x), (y * n if len(y) == 1 else y)
                require(x == y, f"{what} changed PER_LAYER_THICKNESS from {v} to {b[k]}")
                continue
            require(k in b and b[k] == v and type(b[k]) is type(v), f"{what} changed the setting {k} from {v!r} to {b.get(k)!r}")
        o.add("settings compared", len(a))

    same_settings(before, after, "training")
    # continue
    model = r.model
    if case["changed"]:  # the user edits the parameters in between
        with torch.no_grad():
            for p in model.parameters():
                p.mul_(0.97)
    start = {k: v.clone() for k, v in model.state_dict().items()}
    disturb(g)
    with TC.Recorder() as rec:
        r2 = nidn.run_training(r)
    ev = rec.evals()
    require(r2.model is model, "training replaced the model of the configuration")
    require(len(ev) > 0 and TC.same(ev[0], start), "training did not continue from the given parameters")
    same_settings(before, settings(r2), "continued training")
    o.add("runs continued")
    o.seen("kind", (d["mk"], d["noise"]))
    o.nontrivial = not TC.same(ev[0], ev[-1])
    o.sig = list(r2.results.loss_log)
    o.sample = {"loss": list(r2.results.loss_log)}
    return o


if __name__ == "__main__":
    from mon import core

    core._setup_env()
    print("FACTS " + json.dumps([facts(train(d)[0]) for d in json.load(sys.stdin)]))
