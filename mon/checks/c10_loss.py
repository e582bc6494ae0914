"""C10: the training loss."""
import math
import numpy as np
from mon.core import Obs, Violation, Skip, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C10"
RULE = (
    "(a) The loss functions on random spectra (physical, R+T>1 at some or all frequencies, exact hits, at and barely above the limit, slightly negative), targets (also adding up to more than 1), exponents 0.1-6, 1-20 frequencies, "
    "absorption on/off, tensors or floats as targets; (b) one-to-four-iteration training runs (regression, classification with/without regulariser, gain), whose "
    "logs are compared with the loss recomputed from the recorded designs. Non-trivial: positive loss; distinct by case."
)
ASSUMPTIONS = ["the internal loss functions keep their call signature; when they cannot be found only (b) is observed"]
BUDGET = {"quick": 30, "thorough": 400}
REQUIRED = {"logged losses compared": 60}


def cases(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 3000):
        m = rng.choice(["own", "own", "siren", "class", "class"])
        out.append(dict(part="train", s=seed(rng), mk=m, model="voxel" if m == "own" else rng.choice(["siren", "nerf"]), type="classification" if m == "class" else "regression",
                        nl=rng.choice([1, 2, 3]), nf=rng.choice([1, 2, 3, 6]), iters=rng.choice([1, 2, 4]), lr=rng.choice([1e-3, 0.3]) if m == "own" else 1e-3,
                        thick=[rnd(rng, 0.05, 1)], imin=rng.choice([0.0, -0.5]), imax=rng.choice([0.1, 2.0]), L=rng.choice([0.5, 1.0, 2.0, 3.0]), abs=rng.random() < 0.5,
                        binary=rng.random() < 0.3, dist=rng.choice(["linear", "log"]), regw=rng.choice([0.05, 0.7, 5.0]), reg=rng.random() < 0.75, omega=rng.choice([1.0, 1.0, 8.0])))
    for i in range(400 if tier == "quick" else 20000):
        out.append(dict(part="fn", s=seed(rng), nf=rng.choice([1, 1, 2, 3, 5, 20]), L=rng.choice([0.5, 1.0, 1, 2.0, 2, 3.0, 1.7, 4, 6.0, 0.1, 0.2]), abs=rng.random() < 0.5,
                        kind=rng.choice(["physical", "mixed", "unphysical", "hit", "limit", "zero", "above", "greedy", "negative"]), tensor=rng.random() < 0.4))
    for i in range(200 if tier == "quick" else 5000):
        out.append(dict(part="reg", s=seed(rng), shape=[rng.choice([1, 1, 3]), rng.choice([1, 2]), rng.choice([1, 4]), rng.choice([2, 5, 9])], L=rng.choice([0.5, 1.0, 2.0, 3.0, 6.0, 0.1]),
                        pure=rng.random() < 0.3))
    out.append(dict(part="reg", s=seed(rng), shape=[40, 40, 3, 7], L=2.0, pure=False))
    return out


def run(case):
    import nidn, torch

    o = Obs()
    if case["part"] == "train":
        d = case
        j = TC.Judge(d)
        c = TC.base_cfg(d)
        if d["mk"] == "own":
            c.model = TC.own_model(TC.start_eps(d, c))
        with TC.Recorder() as rec:
            r = nidn.run_training(c)
        evals = TC.iterations(rec, d["iters"])
        vals = [v for v in (j.evaluate(r.model, e) for e in evals) if v is not None]
        require(len(vals) == len(r.results.loss_log) == len(r.results.L1_errs), f"{len(vals)} evaluations, {len(r.results.loss_log)} log entries")
        for k, v in enumerate(vals):
            tol = 1e-8 * (1 + abs(v[0])) if d["type"] == "regression" else 1e-6 * (1 + abs(v[0]))
            require(abs(r.results.loss_log[k] - v[0]) <= tol, f"iteration {k}: loss {r.results.loss_log[k]!r}, expected {v[0]!r}")
            require(abs(r.results.L1_errs[k] - v[2]) <= tol, f"iteration {k}: L1 error {r.results.L1_errs[k]!r}, expected {v[2]!r}")
        o.add("logged losses compared", len(vals))
        o.add("logged losses with R+T>1", sum(v[1] for v in vals))
        o.seen("kind", (d["mk"], d["L"], d["abs"], d["type"] == "classification" and d["reg"]))
        o.sample = {"loss": [v[0] for v in vals[:3]]}
        return o
    g = gen(case)
    if case["part"] == "reg":
        try:
            f = internal("nidn.training.losses.likelihood_regularization_loss", "_likelihood_regularization_loss_fn")
        except ImportError:
            raise Skip("regulariser not found")
        p = g.random(case["shape"])
        p = p / p.sum(-1, keepdims=True)
        if case["pure"]:
            p = np.eye(case["shape"][-1])[g.integers(case["shape"][-1], size=case["shape"][:-1])]
        v = num(f(torch.tensor(p), case["L"]))
        want = TC.reg_of(p, case["L"])
        require(abs(v - want) < 1e-12, f"regulariser {v!r}, expected {want!r}")
        if case["pure"]:
            require(v == 0, f"pure materials have regulariser {v!r}")
        o.add("regulariser values compared")
        o.nontrivial = v > 0
        return o
    try:
        f = internal("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    except ImportError:
        raise Skip("spectrum loss not found")
    n, L, k = case["nf"], case["L"], case["kind"]
    tR = g.random(n)
    tT = g.random(n) * (1 - tR)
    R = g.random(n)
    T = g.random(n) * (1 - R)
    if k == "unphysical":
        R, T = R + 0.6, T + 0.6
    elif k == "mixed":
        T = T + (g.random(n) < 0.5) * 1.1
    elif k == "hit":
        R, T = tR.copy(), tT.copy()
    elif k == "limit":
        R = np.round(R * 64) / 64
        T = 1 - R  # exactly 1
    elif k == "above":  # barely above 1
        R = np.round(R * 64) / 64
        T = 1 - R + g.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e-3], n)
    elif k == "greedy":  # targets which add up to more than 1
        tT = 1.3 - tR
    elif k == "negative":  # as simulations return for media with gain or by rounding
        R, T = R - (g.random(n) < 0.4) * 0.3, T - (g.random(n) < 0.6) * g.choice([1e-9, 1e-3, 0.4], n)
    elif k == "zero":
        R, T = R * 0, T * (g.random(n) < 0.5)
    fr = g.uniform(0.03, 1, n)
    a = [torch.tensor(x) for x in R], [torch.tensor(x) for x in T]
    b = (torch.tensor(tR), torch.tensor(tT)) if case["tensor"] else (list(map(float, tR)), list(map(float, tT)))
    ab = case["abs"]
    v, ren = f(a[0], a[1], b[0], b[1], list(fr), L, ab)
    v = num(v)
    from types import SimpleNamespace

    want, wren, margin = TC.loss_of(list(R), list(T), SimpleNamespace(target_reflectance_spectrum=tR, target_transmittance_spectrum=tT), L, ab)
    require(math.isfinite(v) and abs(v - want) < 1e-12 * (1 + want), f"loss {v!r}, expected {want!r} ({k}, L={L}, absorption={ab})")
    require(bool(ren) == wren, f"renormalisation reported {ren}, but R+T>1: {wren}")
    if k == "hit":
        require(v == 0, f"met targets have loss {v!r}")
    else:
        require(v > 0, "loss 0 although the targets are missed")
    if k in ("physical", "mixed", "unphysical", "greedy", "negative") and L >= 1:  # the gradient of the loss
        ns = SimpleNamespace(target_reflectance_spectrum=tR, target_transmittance_spectrum=tT)
        x = [[torch.tensor(float(v), dtype=torch.float64, requires_grad=True) for v in q] for q in (R, T)]
        f(x[0], x[1], b[0], b[1], list(fr), L, ab)[0].backward()
        for w in range(2):
            for i in range(min(n, 4)):
                h = 1e-6
                vals = []
                for sgn in (1, -1):
                    q = [R.copy(), T.copy()]
                    q[w][i] += sgn * h
                    vals.append(TC.loss_of(list(q[0]), list(q[1]), ns, L, ab))
                s_ = R[i] + T[i]
                kink = min(abs(s_ - 1), *(abs(u) for u in ((R[i] / max(s_, 1) - tR[i]), (T[i] / max(s_, 1) - tT[i]), (1 - min(s_, 1)) - (1 - tR[i] - tT[i]))))
                if kink < 1e-3:
                    continue
                fd = (vals[0][0] - vals[1][0]) / (2 * h)
                gr = x[w][i].grad
                require(gr is not None and abs(num(gr) - fd) < 1e-5 * (1 + abs(fd)), f"gradient {gr} of the loss with respect to {'RT'[w]}[{i}], its rate of change is {fd}")
                o.add("loss gradients compared")
    o.add("loss values compared")
    o.add("loss values with R+T>1", wren)
    o.nontrivial = v > 0
    o.seen("kind", (k, L, ab))
    return o
