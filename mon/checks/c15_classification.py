"""C15: classification designs are mixtures of the listed materials."""
import numpy as np
from mon.core import Obs, Skip, Violation, require
from mon.util import *
from mon.modelcase import Rows, stub

PROPERTY = "C15"
RULE = (
    "model_to_eps_grid of classification models with random, decided (0/1), nearly equal and constant outputs, and mixtures of a material with negative and one with positive real part that cancel to a real part near zero, on random grids, frequency counts (incl. one), oversampling factors, skip lists, "
    "noise and zero-avoidance, with the shipped materials. The monitor records every evaluation and checks likelihoods and permittivities against it. Non-trivial: likelihoods differ between materials; distinct by case."
)
ASSUMPTIONS = ["permittivities of the materials are taken from the collection (decided by C16)"]
BUDGET = {"quick": 25, "thorough": 300}
REQUIRED = {"grid points compared": 500, "decided grid points": 50, "mixtures near zero, moved away": 10}


def cases(rng, tier):
    out = []
    for i in range(160 if tier == "quick" else 8000):
        ov = rng.choice([1, 1, 2, 3])
        out.append(dict(s=seed(rng), model=rng.choice(["siren", "nerf"]), kind=rng.choice(["random", "random", "binary", "middle", "zero", "lead"]), nx=ov * rng.choice([1, 1, 2, 3]), ny=ov * rng.choice([1, 2, 4]),
                        nl=rng.choice([1, 2, 5, 9]), nf=rng.choice([1, 1, 2, 4, 7, 12]), over=ov, noise=rng.random() < 0.2, scale=rng.choice([0.001, 0.1]), avoid=rng.random() < 0.5,
                        dist=rng.choice(["linear", "log"]), wl=[rnd(rng, 0.4, 2), rnd(rng, 3, 12)], skip=rng.choice([None, None, "some"]), single=rng.random() < 0.5))
    for i in range(12 if tier == "quick" else 300):  # mixtures of a material with negative and one with positive real part with a real part near zero
        out.append(dict(s=seed(rng), model=["siren", "nerf"][i % 2], kind="cancel", nx=rng.choice([1, 2]), ny=rng.choice([1, 3]), nl=rng.choice([1, 2, 6]), nf=rng.choice([1, 2, 4]), over=1,
                        noise=False, scale=0.001, avoid=i % 4 != 3, dist=rng.choice(["linear", "log"]), wl=[rnd(rng, 0.8, 2), rnd(rng, 11.2, 12.5)], skip=None, single=rng.random() < 0.5))
    for i in range(3 if tier == "quick" else 40):  # many grid points
        ov = rng.choice([1, 2])
        out.insert(i, dict(out[i], s=seed(rng), kind="random", nx=ov * rng.choice([11, 16]), ny=ov * rng.choice([13, 16]), nl=rng.choice([3, 7]), nf=rng.choice([5, 12]), over=ov, noise=False))
    return out


def run(case):
    import nidn, torch

    d = case
    g = gen(d)
    c = cfg(model_type=d["model"], type="classification", Nx=d["nx"], Ny=d["ny"], N_layers=d["nl"], N_freq=d["nf"], eps_oversampling=d["over"], add_noise=d["noise"], noise_scale=d["scale"],
            avoid_zero_eps=d["avoid"], freq_distribution=d["dist"], physical_wavelength_range=[d["wl"][0] * 1e-6, d["wl"][1] * 1e-6],
            PER_LAYER_THICKNESS=[0.4] if d["single"] else [round(float(x), 3) for x in g.uniform(0.1, 1, d["nl"])])
    f = freqs(c)
    allm = nidn.MaterialCollection(c.target_frequencies)
    skip = None
    if d["skip"]:
        skip = list(np.array(allm.material_names)[g.permutation(allm.N_materials)[: int(g.integers(1, allm.N_materials - 1))]])
    mc = nidn.MaterialCollection(c.target_frequencies, to_skip=skip)
    c.material_collection = mc
    c.N_materials = c.out_features = nm = mc.N_materials
    rows = Rows()
    if d["kind"] == "lead":  # at every coordinate one material leads clearly
        class Lead(torch.nn.Module):
            def __init__(s):
                super().__init__()
                s.w = torch.nn.Parameter(torch.ones(()))

            def forward(s, x):
                h = torch.floor(1e4 * torch.abs(torch.sin(12.9 * x[:, 0] + 78.2 * x[:, 1] + 0.37 * x[:, 2]))).long() % nm
                v = torch.nn.functional.one_hot(h, nm).double() * 0.6 + 0.2
                v = v * s.w
                rows.add(x, v)
                return v

        m = Lead()
    elif d["kind"] == "cancel":
        class Mix(torch.nn.Module):  # mixes two materials; the others stay at zero
            def __init__(s):
                super().__init__()
                s.t = torch.nn.Parameter(torch.zeros((), dtype=torch.float64))

            def forward(s, x):
                v = torch.zeros(len(x), nm, dtype=torch.float64)
                v[:, a], v[:, b] = 1 + s.t, 1 - s.t
                rows.add(x, v)
                return v

        M = [num(mc[n].reshape(-1)[0].real) for n in mc.material_names]
        a, b = int(np.argmin(M)), int(np.argmax(M))
        if not (M[a] < -0.05 and M[b] > 0.5):
            raise Skip("no material with negative real part")
        m = Mix()
        lo, hi, c.avoid_zero_eps = -1.0, 1.0, False
        target = float(g.uniform(-0.009, 0.009))
        for _ in range(60):  # bisection on what the code itself returns
            with torch.no_grad():
                m.t.fill_((lo + hi) / 2)
                re0 = num(nidn.model_to_eps_grid(m, c)[0][0, 0, 0, 0].real)
            lo, hi = (lo, (lo + hi) / 2) if re0 < target else ((lo + hi) / 2, hi)
        c.avoid_zero_eps = d["avoid"]
        rows = Rows()
    else:
        m = stub(rows, nm, d["s"], d["kind"])
    eps, ids = nidn.model_to_eps_grid(m, c)
    shape = (c.Nx, c.Ny, c.N_layers)
    require(tuple(eps.shape) == shape + (c.N_freq,), f"grid of shape {tuple(eps.shape)}")
    require(tuple(ids.shape) == shape + (nm,), f"likelihoods of shape {tuple(ids.shape)}, expected {shape + (nm,)}")
    require(eps.is_complex() and eps.requires_grad and ids.requires_grad, "results are not connected to the model")
    e, p = eps.detach().numpy().astype(complex), ids.detach().numpy().astype(float)
    require(np.all(np.isfinite(p)) and p.min() >= 0, f"likelihood {p.min()}")
    require(np.abs(p.sum(-1) - 1).max() < 1e-6, f"likelihoods sum to {p.sum(-1).ravel()[:3]}")
    # permittivities of the materials by name
    M = np.array([mc[n].numpy().reshape(-1) for n in mc.material_names], complex)
    want = np.einsum("xylm,mf->xylf", p, M)
    tol = 1e-6 * (1 + np.abs(M).max())
    re = want.real
    near = np.abs(re) < 0.01
    if d["avoid"]:
        re = np.where(near, np.where(re >= 0, 0.01, -0.01), re)
        require(np.abs(e.real).min() >= 0.01 * (1 - 1e-6), "zero-avoidance left a value near zero")
    bad = np.maximum(np.abs(e.real - re), np.abs(e.imag - want.imag))
    if bad.max() > tol:
        k = np.unravel_index(np.argmax(bad), bad.shape)
        raise Violation(f"permittivity at {k} is {e[k]}, the likelihood-weighted average of the materials is {want[k]}")
    o = Obs()
    o.add("mixtures near zero, " + ("moved away" if d["avoid"] else "kept"), near.sum())
    tab, _ = rows.table([c.Nx // d["over"], c.Ny // d["over"], c.N_layers, c.N_freq])
    mean = np.kron(tab.mean(3), np.ones((d["over"], d["over"], 1, 1)))
    if not d["noise"]:
        if d["over"] > 1:
            k = d["over"]
            for a in (p, e):
                require(np.allclose(a, np.repeat(np.repeat(a[::k, ::k], k, 0), k, 1), atol=1e-12), "oversampled grid is not blockwise constant")
        top = np.argsort(mean, -1)
        srt = np.sort(mean, -1)
        gap = srt[..., -1] - srt[..., -2]
        sel = gap > 1e-6
        require(np.all(np.argmax(p, -1)[sel] == top[..., -1][sel]), "the largest likelihood is not that of the material with the largest mean output")
        dec = gap >= 0.5
        if dec.any():
            require(p.max(-1)[dec].min() >= 0.99, f"a material whose mean output leads by {gap[dec].min():.2f} has likelihood {p.max(-1)[dec].min()}")
        # likelihoods order as the mean outputs do, and equal outputs have equal likelihoods
        ps = np.take_along_axis(p, top, -1)
        require(np.all(np.diff(ps, axis=-1) >= -1e-9), "likelihoods are not ordered as the mean outputs")
        same = np.diff(srt, axis=-1) == 0
        require(np.all(np.abs(np.diff(ps, axis=-1))[same] < 1e-9), "equal outputs with different likelihoods")
        o.add("decided grid points", dec.sum())
        o.add("grid points compared", dec.size)
    o.seen("kind", (d["kind"], d["over"], d["nf"]))
    o.nontrivial = np.ptp(p) > 1e-6
    o.sample = {"p": [round(float(x), 5) for x in p[0, 0, 0]], "eps": str(e[0, 0, 0, :2])}
    return o
