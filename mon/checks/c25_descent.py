"""C25: every training iteration is one Adam step down the gradient of its own loss."""
import copy
import numpy as np
from mon.core import Obs, Violation, Skip, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C25"
RULE = (
    "Training runs of 2-12 iterations (free user models, voxel, siren, nerf, classification with and without regularisation, both solvers, absorption, exponents, learning rates, fresh and given models, repeated runs on one configuration). The monitor records parameters at every evaluation "
    "and the rates at every optimizer step; from the recorded parameters it recomputes the loss with its own formula and its gradient, carries its own Adam state and predicts the next parameters. Long runs (540-620 iterations) with losses that stop improving, go on improving, improve only in their average or only with the regulariser check the learning-rate history. "
    "Non-trivial: all steps moved some parameter and the gradients differ between iterations; distinct by loss history."
)
ASSUMPTIONS = [
    "the gradient of the spectrum of a recorded design is taken from nidn.compute_spectrum (decided by C05)",
    "Adam with the usual constants (0.9, 0.999, 1e-8); runs without noise and without numerical failures (those are C12)",
]
BUDGET = {"quick": 40, "thorough": 500}
REQUIRED = {"steps predicted": 200, "parameters compared": 5000, "rates compared": 1000}


def cases(rng, tier):
    out = []
    for i in range(5 if tier == "quick" else 20):
        out.append(dict(part="rate", s=seed(rng), n=620 if i % 5 == 0 else rng.choice([540, 580, 620]), lr=[rng.choice([1e-3, 0.02, 1.0]), rng.choice([1e-3, 1e-2]), 1.2e-5, 1e-3, 1e-3][i % 5], kind=["late", "improving", "plateau", "spike", "regularised"][i % 5]))
    for i in range(70 if tier == "quick" else 2500):
        m = rng.choice(["own", "own", "voxel", "siren", "nerf", "class", "class"])
        nl = rng.choice([1, 2, 3])
        d = dict(
            part="step", s=seed(rng), mk=m, model="voxel" if m in ("own", "voxel") else m if m != "class" else rng.choice(["siren", "nerf"]), type="classification" if m == "class" else "regression",
            nl=nl, nf=rng.choice([1, 2, 3, 5]), iters=rng.choice([2, 3, 5, 8, 12]), lr=rng.choice([1e-3, 0.05, 0.3]) if m in ("own", "voxel") else rng.choice([1e-5, 1e-4, 1e-3]),
            thick=[rnd(rng, 0.05, 1.0)] if rng.random() < 0.5 else [rnd(rng, 0.05, 1.0) for _ in range(nl)], imin=rng.choice([0.0, 0.0, -0.3]), imax=rng.choice([0.5, 3.0]),
            L=rng.choice([1.0, 2.0, 3.0, 1.5]), abs=rng.random() < 0.4, outside=rng.random() < 0.2, avoid=rng.random() < 0.7, dist=rng.choice(["linear", "log"]), seed=rng.randrange(1000),
            regw=rng.choice([0.01, 0.3, 2.0]), reg=rng.random() < 0.7, again=rng.random() < 0.3,
        )
        if m in ("own", "voxel", "siren") and rng.random() < 0.15:
            d.update(nx=7, ny=6, ng=9, nl=1, thick=[0.4], nf=1, rmin=1.0, rmax=9.0)
        out.append(d)
    for i in range(2 if tier == "quick" else 40):
        out.append(dict(part="step", s=seed(rng), mk=["own", "siren"][i % 2], model=["voxel", "siren"][i % 2], type="regression", solver="FDTD", nl=1, nf=1, iters=3, lr=[0.3, 1e-3][i % 2], thick=[0.5], L=rng.choice([1.0, 2.0]), niter=110))
    return out


def gradient(j, model, state):
    """loss and gradient of the recorded design, own loss formula"""
    import torch, nidn

    m = copy.deepcopy(model)
    m.load_state_dict(state)
    for p in m.parameters():
        p.grad = None
    c = copy.deepcopy(j.c)
    eps, ids = nidn.model_to_eps_grid(m, c)
    if bool(torch.isnan(eps).any()):
        raise Skip("the run failed numerically")
    R, T = nidn.compute_spectrum(eps, c)
    tot = 0.0
    for r, t, tr, tt in zip(R, T, c.target_reflectance_spectrum, c.target_transmittance_spectrum):
        if r + t > 1:
            r, t = r / (r + t), t / (r + t)
        tot = tot + torch.abs(r - tr) ** c.L + torch.abs(t - tt) ** c.L
        if c.absorption_loss:
            tot = tot + torch.abs((1 - t - r) - (1 - tt - tr)) ** c.L
    loss = tot / ((3 if c.absorption_loss else 2) * len(R))
    if c.type == "classification" and c.use_regularization_loss:
        loss = loss + c.reg_loss_weight * torch.mean(torch.minimum(ids**c.L, (1 - ids) ** c.L))
    names = [n for n, p in m.named_parameters()]
    gs = torch.autograd.grad(loss, list(m.parameters()), allow_unused=True)
    return float(loss), {n: (None if g is None else g.detach().numpy()) for n, g in zip(names, gs)}


def adam(state, p, g, lr):
    """one step; returns the new parameters"""
    new = {}
    for n, x in p.items():
        if g[n] is None:
            new[n] = x
            continue
        s = state.setdefault(n, [np.zeros_like(x), np.zeros(x.shape), 0])
        s[2] += 1
        gg = g[n]
        s[0] = 0.9 * s[0] + 0.1 * gg
        if np.iscomplexobj(x):  # torch treats a complex parameter as a pair of real ones
            sq = gg.real**2 + 1j * gg.imag**2
            s[1] = 0.999 * s[1] + 0.001 * sq
            den = lambda v: np.sqrt(v / (1 - 0.999 ** s[2])) + 1e-8
            mh = s[0] / (1 - 0.9 ** s[2])
            new[n] = x - lr * (mh.real / den(s[1].real) + 1j * mh.imag / den(s[1].imag))
        else:
            s[1] = 0.999 * s[1] + 0.001 * gg**2
            new[n] = x - lr * (s[0] / (1 - 0.9 ** s[2])) / (np.sqrt(s[1] / (1 - 0.999 ** s[2])) + 1e-8)
    return new


def step(d):
    import nidn, torch

    j = TC.Judge(d)
    c = TC.base_cfg(d)
    o = Obs()
    if d["mk"] == "own":
        c.model = TC.own_model(TC.start_eps(d, c))
    sig = []
    moved, grads = True, []
    for rnd_ in range(2 if d.get("again") else 1):  # a second run continues with a fresh optimizer
        with TC.Recorder() as rec:
            c = nidn.run_training(c)
        n = d["iters"]
        ev = TC.iterations(rec, n)
        st = {}
        L = [gradient(j, c.model, e) for e in ev]
        if not all(x is None or np.all(np.isfinite(x)) for _, g in L for x in g.values()):
            raise Skip("gradient not finite")
        rates = [e[1] for e in rec.events if e[0] == "step"]
        for r in rates:
            require(all(abs(x - d["lr"]) <= 1e-12 * d["lr"] for x in r), f"a step was taken with the learning rate {r}, configured is {d['lr']}")
            o.add("rates compared")
        for k in range(n):
            loss, g = L[k]
            pv = {q: v.numpy() for q, v in ev[k].items() if q in g}
            want = adam(st, pv, g, d["lr"])
            grads.append(np.concatenate([np.abs(x).ravel()[:3] for x in g.values() if x is not None]))
            sig.append(loss)
            if k + 1 == n:
                break  # the last step's result is discarded in favour of the best design
            for q in want:
                a, b = ev[k + 1][q].numpy(), want[q]
                tol = 1e-3 * d["lr"] + 1e-9 * np.abs(b)
                if a.dtype in (np.float32, np.complex64):
                    tol = tol + 1e-5 * (1 + np.abs(b))
                bad = ~(np.abs(a - b) <= tol)
                if bad.any():
                    w = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
                    raise Violation(f"iteration {k}: parameter {q}{list(w)} went from {pv[q][w]!r} to {a[w]!r}; an Adam step with rate {d['lr']} down the gradient {g[q][w] if g[q] is not None else None!r} of its loss leads to {b[w]!r}")
                o.peak("deviation in learning rates, " + str(a.dtype), float(np.max(np.abs(a - b)) / d["lr"]))
                o.add("parameters compared", a.size)
                moved &= bool(np.any(a != pv[q])) or not np.any(g[q] if g[q] is not None else 0)
            o.add("steps predicted")
    o.seen("model", d["mk"] + ("/FDTD" if d.get("solver") else "") + ("/" + d["model"] if d["mk"] == "class" else ""))
    o.nontrivial = moved and len({x.tobytes() for x in grads}) > 1
    o.sig = sig
    o.sample = {"losses": [round(x, 6) for x in sig[:4]]}
    return o


def rate(d):
    """own plateau rule: after more than 500 iterations without a relative improvement of 1e-4 the rate is multiplied by 0.66"""
    import nidn, torch

    x = dict(s=d["s"], nl=1, nf=1, iters=d["n"], lr=d["lr"], thick=[0.3], L=2.0, mk="own", model="voxel", rmin=2.0, rmax=12.0)
    c = TC.base_cfg(x)
    k = [0]
    nmax = d["n"]

    class M(torch.nn.Module):  # permittivity independent of the parameter unless the history asks for improvement
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.zeros(1))

        def forward(self):
            i = k[0]
            k[0] += 1
            v = 4.0
            if d["kind"] == "spike":  # one early best design; afterwards the losses fall towards, but not below it
                v = 4.0 + 3.0 * (1 - i / nmax) if i != 1 else 3.9
            if d["kind"] == "improving" or (d["kind"] == "late" and i < 60):
                v = 4.0 + 3.0 * (1 - i / nmax)
            return torch.complex(v + 0 * self.p, 0 * self.p).reshape(1, 1, 1, 1)

    c.model = M()
    # a target that is approached monotonically by smaller permittivities
    c.target_reflectance_spectrum, c.target_transmittance_spectrum = [0.0], [1.0]
    c.PER_LAYER_THICKNESS = [0.001]
    if d["kind"] == "regularised":  # the total loss improves while the spectrum moves away from its target
        x.update(type="classification", model="siren", regw=50.0, reg=True, L=1.0)
        c = TC.base_cfg(x)
        nm = nidn.MaterialCollection(nidn.compute_target_frequencies(c.physical_wavelength_range[0], c.physical_wavelength_range[1], 1, c.freq_distribution)).N_materials

        class K(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.p = torch.nn.Parameter(torch.zeros(1))

            def forward(self, q):
                v = torch.zeros(len(q), nm)
                v[:, 0], v[:, 1] = 1.0, 1.0 - 0.3 * k[0] / nmax
                k[0] += 1
                return v + 0 * self.p

        c.model = K()
        q = copy.deepcopy(c)
        q.target_frequencies = nidn.compute_target_frequencies(c.physical_wavelength_range[0], c.physical_wavelength_range[1], 1, c.freq_distribution)
        q.material_collection = nidn.MaterialCollection(q.target_frequencies)
        q.N_materials = q.out_features = nm
        with torch.no_grad():
            R, T = nidn.compute_spectrum(nidn.model_to_eps_grid(copy.deepcopy(c.model), q)[0], q)
        k[0] = 0
        c.target_reflectance_spectrum, c.target_transmittance_spectrum = nums(R), nums(T)
    with TC.Recorder() as rec:
        r = nidn.run_training(c)
    o = Obs()
    log = [float(v) for v in r.results.loss_log]
    require(len(log) == d["n"], f"{len(log)} log entries for {d['n']} iterations")
    lr, best, bad = d["lr"], np.inf, 0
    seen = [e[1] for e in rec.events if e[0] == "step"]
    require(len(seen) == d["n"], f"{len(seen)} optimizer steps in {d['n']} iterations")
    for i, v in enumerate(log):
        require(all(abs(q - lr) <= 1e-9 * lr for q in seen[i]), f"iteration {i}: learning rate {seen[i]}; with the losses so far it is {lr}")
        if v < best * (1 - 1e-4):
            best, bad = v, 0
        else:
            bad += 1
        if bad > 500:
            lr, bad = max(lr * 0.66, min(lr, 1e-6)), 0
        o.add("rates compared")
    o.add("reductions of the rate on a plateau", lr < d["lr"])
    o.seen("rate history", d["kind"])
    o.nontrivial = True
    o.sample = {"kind": d["kind"], "final rate": lr, "losses": [log[0], log[-1]]}
    return o


def run(d):
    return step(d) if d["part"] == "step" else rate(d)
