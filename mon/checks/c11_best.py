"""C11: training returns the best physically valid design it visited; logs are complete."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C11"
RULE = (
    "Training runs (TRCWA: 1-60 iterations, FDTD: few) of free user models, voxel, siren and nerf models and classification runs with learning rates from tiny to "
    "wildly too large, runs whose targets are met to many digits, runs of more than 1000 iterations, and runs of configurations trained before, with and without gain (unphysical R+T>1), parameters in and outside the allowed range. The monitor "
    "records the parameters at every evaluation, re-evaluates each of them on its own and compares logs and the returned design. "
    "Non-trivial: the best iteration is neither the first nor the last one, or some iterations were unphysical and others not; distinct by loss history."
)
ASSUMPTIONS = ["the spectra of a recorded design are recomputed with nidn.compute_spectrum (decided by C01/C06)", "one model evaluation per iteration"]
BUDGET = {"quick": 40, "thorough": 600}
REQUIRED = {"iterations observed": 200, "unphysical iterations": 10, "histories where the best spectrum loss is elsewhere": 2}


def cases(rng, tier):
    n = 90 if tier == "quick" else 4000
    out = []
    for i in range(n):
        m = rng.choice(["own", "own", "own", "own", "voxel", "siren", "nerf", "class"])
        nl = rng.choice([1, 1, 2, 3])
        d = dict(
            s=seed(rng), mk=m, model="voxel" if m in ("own", "voxel") else ("siren" if m in ("siren",) else rng.choice(["siren", "nerf"]) if m == "class" else "nerf"),
            type="classification" if m == "class" else "regression",
            nl=nl, nf=rng.choice([1, 2, 2, 4]), iters=rng.choice([1, 2, 3, 5, 12, 25, 25, 40, 60]) if m == "own" else rng.choice([1, 3, 8, 12]),
            lr=rng.choice([1e-3, 0.05, 0.5, 2.0, 10.0]) if m in ("own", "voxel") else rng.choice([1e-4, 1e-2, 0.1]),
            thick=[rnd(rng, 0.05, 1.0)] if rng.random() < 0.5 else [rnd(rng, 0.05, 1.0) for _ in range(nl)],
            imin=rng.choice([0.0, 0.0, -0.3, -1.5]), imax=rng.choice([0.01, 0.5, 3.0]), L=rng.choice([1.0, 2.0, 0.5, 3.0]),
            abs=rng.random() < 0.3, outside=rng.random() < 0.3, avoid=rng.random() < 0.7, binary=rng.random() < 0.3,
            dist=rng.choice(["linear", "log"]), c64=rng.random() < 0.3, seed=rng.randrange(1000), regw=rng.choice([0.01, 0.05, 1.0]), reg=rng.random() < 0.7,
        )
        if m == "own" and rng.random() < 0.5:  # physical and unphysical designs side by side
            d.update(imin=rng.choice([-0.05, -0.3]), imax=rng.choice([0.3, 0.05]), lr=rng.choice([0.1, 0.5, 2.0]), rmin=1.0, rmax=rng.choice([4.0, 12.0]), nf=rng.choice([1, 1, 2]))
        out.append(d)
    for i in range(10 if tier == "quick" else 200):  # the regularizer and the spectrum pull in different directions
        nl = rng.choice([1, 2, 3])
        out.append(dict(s=seed(rng), mk="class", model=["siren", "nerf"][i % 2], type="classification", nl=nl, nf=rng.choice([1, 2]), iters=rng.choice([12, 20]), lr=rng.choice([0.01, 0.1, 0.3]),
                        thick=[rnd(rng, 0.05, 1.0)], L=rng.choice([1.0, 2.0, 0.5]), abs=rng.random() < 0.3, c64=False, seed=rng.randrange(1000), regw=rng.choice([1.0, 5.0, 20.0]), reg=True,
                        binary=rng.random() < 0.3, omega=rng.choice([1.0, 5.0, 30.0])))
    for i in range(10 if tier == "quick" else 200):  # targets that are met to many digits
        nl = rng.choice([1, 2])
        out.append(dict(s=seed(rng), mk="own", model="voxel", type="regression", nl=nl, nf=rng.choice([1, 2]), iters=rng.choice([12, 25, 60]), lr=rng.choice([1e-3, 1e-4, 1e-5]), thick=[rnd(rng, 0.05, 1.0)], imin=0.0, imax=3.0,
                        L=rng.choice([1.0, 2.0, 3.0]), c64=False, rmin=1.0, rmax=12.0, near=rng.choice([1e-2, 1e-3, 1e-4]), dist=rng.choice(["linear", "log"])))
    for i in range(10 if tier == "quick" else 200):  # steps that overshoot such targets again and again
        near = rng.choice([1e-2, 1e-3, 1e-4])
        out.append(dict(s=seed(rng), mk="own", model="voxel", type="regression", nl=rng.choice([1, 2]), nf=rng.choice([1, 2]), iters=rng.choice([12, 25]), lr=near * rng.choice([0.3, 1.0, 3.0]), thick=[rnd(rng, 0.05, 1.0)],
                        imin=0.0, imax=3.0, L=rng.choice([1.0, 2.0, 2.0]), c64=False, rmin=1.0, rmax=12.0, near=near, dist=rng.choice(["linear", "log"])))
    for i in range(3 if tier == "quick" else 60):
        out.append(dict(s=seed(rng), mk="own", model="voxel", type="regression", solver="FDTD", nl=1, nf=1, iters=4, lr=rng.choice([0.3, 2.0]),
                        thick=[0.5], L=rng.choice([1.0, 2.0]), c64=False, niter=110))
    for i in range(4 if tier == "quick" else 60):  # classification where designs of too short simulations are unphysical
        out.append(dict(s=seed(rng), mk="class", model="siren", type="classification", solver="FDTD", nl=1, nf=1, iters=4, lr=0.1, thick=[0.5], L=rng.choice([1.0, 2.0]), c64=False, niter=110,
                        seed=rng.randrange(1000), regw=rng.choice([1.0, 5.0]), omega=30.0))
    for i in range(6 if tier == "quick" else 100):  # configurations which were trained before, with the same or another model
        out.append(dict(s=seed(rng), mk="own", model="voxel", type="regression", nl=1, nf=1, iters=rng.choice([1, 5, 12]), lr=rng.choice([0.05, 0.5]), thick=[rnd(rng, 0.05, 1.0)], imin=rng.choice([0.0, -0.3]), imax=3.0,
                        L=rng.choice([1.0, 2.0]), c64=False, earlier=rng.choice([3, 21, 60]), same=rng.random() < 0.5))
    for i in range(1 if tier == "quick" else 4):  # long runs
        out.append(dict(s=seed(rng), mk="own", model="voxel", type="regression", nl=1, nf=1, iters=rng.choice([1105, 1300]) if tier == "quick" else rng.choice([2100, 5100, 10100]), lr=rng.choice([0.01, 0.05]), thick=[rnd(rng, 0.05, 1.0)], imin=0.0, imax=3.0, L=1.0, c64=False))
    return out[::-1]


def run(case):
    import nidn, torch

    d = case
    j = TC.Judge(d)
    c = TC.base_cfg(d)
    if d["mk"] == "own":
        c.model = TC.own_model(TC.start_eps(d, c), dtype="c64" if d["c64"] else "c128")
        if d.get("earlier"):
            c.iterations = d["earlier"]
            c = nidn.run_training(c)
            c.iterations = d["iters"]
            if not d["same"]:
                c.model = TC.own_model(TC.start_eps(d, c))
    with TC.Recorder() as rec:
        r = nidn.run_training(c)
    model = r.model
    n = d["iters"]
    o = Obs()
    log, l1, wa = list(r.results.loss_log), list(r.results.L1_errs), list(r.results.weighted_average_log)
    final = {k: v for k, v in model.state_dict().items()}
    require(TC.same(final, dict(r.best_model_state_dict)), "returned model and stored best state differ")
    evals = TC.iterations(rec, n)
    vals = [j.evaluate(model, e) for e in evals]
    # designs that became NaN by themselves (too large steps) count as failed iterations (decided by C12)
    ok = [k for k in range(n) if vals[k] is not None]
    o.add("iterations that failed numerically", n - len(ok))
    evals, vals = [evals[k] for k in ok], [vals[k] for k in ok]
    n = len(ok)
    require(len(log) == len(l1) == len(wa) == n, f"{n} evaluated iterations but {len(log)} / {len(l1)} / {len(wa)} log entries")
    for k, v in enumerate(vals):
        tol = 1e-7 * (1 + abs(v[0]))
        if v[3] < 1e-9:
            tol = max(tol, 1e-5)
        require(abs(log[k] - v[0]) <= tol, f"iteration {k}: logged loss {log[k]!r}, but its design has {v[0]!r}")
        require(abs(l1[k] - v[2]) <= tol, f"iteration {k}: logged L1 error {l1[k]!r}, but its design has {v[2]!r}")
        m = np.mean(log[max(0, k - 19) : k + 1])
        require(abs(wa[k] - m) <= 1e-9 * (1 + m), f"iteration {k}: logged average {wa[k]!r}, mean of the last 20 losses is {m!r}")
    amb = TC.check_best(evals, vals, final, exact=d.get("near") and d["L"] >= 1)
    best = min(range(n), key=lambda k: (vals[k][1], vals[k][0]))
    unp = sum(v[1] for v in vals)
    o.add("iterations observed", n)
    o.add("unphysical iterations", unp)
    o.add("unphysical iterations of classification", unp if d["mk"] == "class" else 0)
    o.add("histories where the last iteration is not the best", best != n - 1)
    o.add("histories where the lowest loss is unphysical", any(v[1] and v[0] < vals[best][0] for v in vals) and not vals[best][1])
    o.add("histories where the best spectrum loss is elsewhere", min(range(n), key=lambda k: (vals[k][1], vals[k][4])) != best)
    o.add("histories with best losses below 1e-7", vals[best][0] < 1e-7)
    o.add("histories with rounding-ambiguous validity", bool(amb))
    o.seen("model", d["mk"] + ("/FDTD" if d.get("solver") else "") + ("/" + d["model"] if d["mk"] == "class" else ""))
    o.nontrivial = 0 < best < n - 1 or 0 < unp < n
    o.sig = log
    o.sample = {"losses": [round(x, 6) for x in log[:6]], "best": best, "unphysical": unp}
    return o
