"""C20: saved runs are restored exactly and never lost to later saves."""
import copy, os, shutil, sys, tempfile, threading, time
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C20"
RULE = (
    "Random histories of 2-23 saves (same/different names and subfolders, within one second) of trained runs of all model and design types, with further training and edits in between, or of 4-32 saves under one name by 2-8 threads at once with delays injected before files are opened, in a scratch folder; every file is then loaded, "
    "compared entry by entry with the snapshot taken when it was saved, and its design, spectra and continued training with the original's. Non-trivial: at least two saves; distinct by case."
)
ASSUMPTIONS = ["a save is located by the file that appears below the results folder"]
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = {"saves": 80, "runs compared": 80, "saves under an already used name": 10, "runs saved at the same time": 40}


def cases(rng, tier):
    out = []
    for i in range(48 if tier == "quick" else 800):
        m = rng.choice(["siren", "nerf", "voxel", "class"])
        out.append(dict(s=seed(rng), mk=m, model=m if m != "class" else rng.choice(["siren", "nerf"]), type="classification" if m == "class" else "regression", nl=rng.choice([1, 2]), nf=rng.choice([1, 2]), iters=2, lr=1e-3, thick=[rnd(rng, 0.1, 1)],
                        dist=rng.choice(["linear", "log"]), seed=rng.randrange(1000), n=rng.choice([2, 3, 5, 8]),
                        names=[rng.choice(["run", "run", "a b", "x.y", "run_1", "ünï"]) for _ in range(8)], subs=[rng.choice(["", "", "sub", "deep/er", "Upper/Case 2"]) for _ in range(8)], ops=[rng.choice(["none", "edit", "train", "log"]) for _ in range(8)]))
    for i in range(3 if tier == "quick" else 30):  # many saves under one name within a second; logs without entries
        d = dict(out[i], s=seed(rng), n=rng.choice([12, 14, 23]), names=["run"] * 8, subs=[rng.choice(["", "sub"])] * 8, ops=["none", "log", "none", "edit", "none", "none", "none", "none"], empty=i % 3)
        out.insert(i * 5, d)
    for i in range(6 if tier == "quick" else 100):  # several runs are saved at the same time
        out.insert(i * 5, dict(out[i], s=seed(rng), part="parallel", workers=rng.choice([2, 4, 8]), n=rng.choice([2, 4]), delay=rng.choice([0.0, 0.002, 0.01]), names=["run"] * 8, subs=[rng.choice(["", "sub", "new/one"])] * 8))
    return out


DELAY = {"installed": False, "root": None, "seconds": 0.0, "hits": 0}


def _slow_open(event, args):
    """delays every file that is opened for writing below the watched folder"""
    if event == "open" and DELAY["root"] and isinstance(args[0], str) and isinstance(args[1], str) and set(args[1]) & set("wxa") and os.path.abspath(args[0]).startswith(DELAY["root"]):
        DELAY["hits"] += 1
        time.sleep(DELAY["seconds"])


def run_parallel(d):
    """Runs saved by several threads at once are all there and each is complete."""
    import nidn

    root = tempfile.mkdtemp(dir=os.environ["MON_SCRATCH"])
    os.makedirs(root + "/work")
    os.chdir(root + "/work")
    o = Obs()
    if not DELAY["installed"]:
        sys.addaudithook(_slow_open)
        DELAY["installed"] = True
    old = sys.getswitchinterval()
    try:
        r = nidn.run_training(TC.base_cfg(d))
        jobs = []
        for k in range(d["workers"] * d["n"]):
            c = copy.deepcopy(r)
            c.name, c.seed = d["names"][0], 1000 + k
            c.results.loss_log = list(c.results.loss_log) + [float(k)]
            jobs.append(c)
        want = {c.seed: snap(c) for c in jobs}
        gate, failed = threading.Barrier(d["workers"]), []
        DELAY.update(root=root, seconds=d["delay"], hits=0)

        def work(w):
            gate.wait()
            for c in jobs[w :: d["workers"]]:
                try:
                    nidn.save_run(c, d["subs"][0])
                except Exception as ex:
                    failed.append(repr(ex))

        sys.setswitchinterval(1e-5)
        th = [threading.Thread(target=work, args=(w,), daemon=True) for w in range(d["workers"])]
        [t.start() for t in th]
        [t.join() for t in th]
        DELAY["root"] = None
        require(not failed, f"{len(failed)} of {len(jobs)} simultaneous saves failed: {failed[:2]}")
        fs = files(root)
        seen = {}
        for f in fs:
            try:
                l = nidn.load_run(f)
            except Exception as ex:
                raise Violation(f"{os.path.basename(f)}, saved by one of {d['workers']} threads, cannot be restored: {ex!r}")
            require(l.seed in want and not diff(want[l.seed], snap(l)), f"{os.path.basename(f)} was restored with other {diff(want.get(l.seed, {}), snap(l))[:4]}")
            seen[l.seed] = f
        require(len(fs) == len(jobs) and len(seen) == len(jobs), f"{len(jobs)} runs were saved by {d['workers']} threads, but {len(fs)} files with {len(seen)} different runs are there")
        o.add("runs saved at the same time", len(jobs))
        o.add("openings delayed", DELAY["hits"])
    finally:
        DELAY["root"] = None
        sys.setswitchinterval(old)
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    o.seen("kind", "parallel " + d["mk"])
    o.sample = {"threads": d["workers"], "files": len(fs)}
    return o


def snap(c):
    """comparable form of a whole configuration"""
    import torch

    def f(v):
        if torch.is_tensor(v):
            return ("tensor", str(v.dtype), tuple(v.shape), v.detach().numpy().tobytes())
        if isinstance(v, np.ndarray):
            return ("array", str(v.dtype), v.shape, v.tobytes())
        if isinstance(v, torch.nn.Module):
            return ("module", type(v).__name__, [(k, f(x)) for k, x in v.state_dict().items()])
        if hasattr(v, "items"):
            return ("map", sorted((str(k), f(x)) for k, x in v.items()))
        if hasattr(v, "material_names"):
            return ("materials", list(v.material_names), f(v.epsilon_matrix), v.N_materials)
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [f(x) for x in v])
        return (type(v).__name__, repr(v))

    return {k: f(v) for k, v in c.items()}


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def files(root):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs)


def run(case):
    import nidn, torch

    d = case
    if d.get("part") == "parallel":
        return run_parallel(d)
    g = gen(d)
    root = tempfile.mkdtemp(dir=os.environ["MON_SCRATCH"])
    os.makedirs(root + "/work")
    os.chdir(root + "/work")
    o = Obs()
    try:
        r = nidn.run_training(TC.base_cfg(d))
        if d.get("empty") == 1:  # every iteration failed
            r.results.loss_log, r.results.L1_errs, r.results.weighted_average_log = [], [], []
        elif d.get("empty") == 2:
            r.results = type(r.results)()
        saved = []
        content = {}
        for k in range(d["n"]):
            op = d["ops"][k % 8]
            if op == "edit":
                with torch.no_grad():
                    for p in r.model.parameters():
                        p.mul_(1.01)
                r.learning_rate = r.learning_rate * 0.9
            elif op == "train":
                r = nidn.run_training(r)
            elif op == "log" and "loss_log" in r.results:
                r.results.loss_log.append(float(g.random()))
            r.name = d["names"][k % 8]
            before = snap(r)
            old = files(root)
            if d["subs"][k % 8] or g.random() < 0.5:
                nidn.save_run(r, d["subs"][k % 8])
            else:
                nidn.save_run(r)
            after = snap(r)
            require(not diff(before, after), f"saving changed {diff(before, after)}")
            new = [f for f in files(root) if f not in old]
            require(len(new) == 1, f"a save created {len(new)} files ({[os.path.relpath(f, root) for f in new]})" + ("; it overwrote an earlier one" if not new else ""))
            for f in old:
                require(open(f, "rb").read() == content[f], f"saving altered the earlier {os.path.relpath(f, root)}")
            rel = os.path.relpath(new[0], root)
            require(rel.startswith("results/" + d["subs"][k % 8]) and d["names"][k % 8] in os.path.basename(rel), f"run {d['names'][k % 8]!r} in subfolder {d['subs'][k % 8]!r} was saved as {rel}")
            content[new[0]] = open(new[0], "rb").read()
            o.add("saves")
            o.add("saves under an already used name", any(x[3:] == (d["names"][k % 8], d["subs"][k % 8]) for x in saved))
            with torch.no_grad():
                e1 = nidn.model_to_eps_grid(r.model, r)[0].clone()
                a = nidn.compute_spectrum(e1, r)
            saved.append((new[0], before, (e1, nums(a[0]) + nums(a[1])), d["names"][k % 8], d["subs"][k % 8]))
        pick = g.permutation(len(saved))
        for i in pick:
            f, want, orig, _, _ = saved[i]
            l = nidn.load_run(f)
            got = snap(l)
            require(not diff(want, got), f"the run saved as number {i} was restored with other {diff(want, got)}")
            with torch.no_grad():
                e2 = nidn.model_to_eps_grid(l.model, l)[0]
                require(torch.equal(orig[0], e2), "the restored run has other permittivities")
                b = nidn.compute_spectrum(e2, l)
            require(np.allclose(orig[1], nums(b[0]) + nums(b[1]), rtol=1e-9, atol=1e-12), "the restored run has other spectra")
            o.add("runs compared")
        # training goes on as from the original
        f, want, orig, _, _ = saved[-1]
        l = nidn.load_run(f)
        a, b = nidn.run_training(r), nidn.run_training(l)
        require(np.allclose(a.results.loss_log, b.results.loss_log, rtol=1e-7), f"continued training differs: {a.results.loss_log} and {b.results.loss_log}")
        o.add("runs trained further")
        for f in content:
            require(open(f, "rb").read() == content[f], "loading altered a file")
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    o.seen("kind", d["mk"])
    o.sample = {"files": [os.path.basename(x[0]) for x in saved[:3]]}
    return o
