"""C23: every model type works for every size and depends only on the coordinates."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon.modelcase import Rows

PROPERTY = "C23"
RULE = (
    "Models of every type created by one-iteration training runs for random widths (1-100), depths (0-12), output kinds, grid shapes, oversampling, thickness lists and frequency grids. The monitor records "
    "the coordinates and outputs of the real model, then evaluates it alone, on permuted, split, large and arbitrary batches of coordinates, against the function of its parameters in the named architecture, and back-propagates. Non-trivial: more than one coordinate; distinct by case."
)
ASSUMPTIONS = ["coordinates are passed in the order x, y, layer, frequency", "dead units may have zero gradients"]
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = {"coordinates observed": 1000, "outputs re-evaluated": 1000}


def cases(rng, tier):
    out = []
    for i in range(150 if tier == "quick" else 6000):
        m = rng.choice(["siren", "siren", "nerf", "nerf", "nerf", "voxel"])
        ov = rng.choice([1, 1, 2])
        nl = rng.choice([1, 2, 3, 5, 5, 9, 12])
        big = rng.random() < 0.4
        out.append(dict(s=seed(rng), model=m, type="classification" if m != "voxel" and rng.random() < 0.3 else "regression", w=rng.choice([1, 2, 7, 16, 64, 100]), h=rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]) if rng.random() < 0.9 else 9,
                        nx=ov * rng.choice([2, 3, 4]) if big else ov, ny=ov * rng.choice([1, 2, 4]) if big else ov, over=ov, nl=1 if big and ov > 1 else nl, nf=rng.choice([1, 2, 3, 5, 8]) if not big else rng.choice([1, 2]), single=rng.random() < 0.4,
                        dist=rng.choice(["linear", "log"]), omega=rng.choice([0.5, 1.0, 5.0, 30.0]), seed=rng.randrange(10**6), b=rng.choice([[-100.0, 100.0], [1.0, 9.0], [-30.0, -3.0], [2.0, 40.0]]), q=rng.choice([[0.0, 3.0], [-1.0, 0.5], [0.2, 7.0]])))
    for i in range(3 if tier == "quick" else 30):  # many grid points
        out.insert(i, dict(out[i], s=seed(rng), model=["siren", "nerf", "voxel"][i % 3], type="regression", w=16, h=2, nx=rng.choice([9, 12]), ny=rng.choice([8, 11]), over=1, nl=rng.choice([4, 6]), nf=rng.choice([6, 8])))
    return out


def run(case):
    import nidn, torch
    from torch.nn.modules import module as M

    d = case
    g = gen(d)
    thick = [0.3] if d["single"] else [round(float(x), 3) for x in g.uniform(0.05, 1, d["nl"])]
    nf = d["nf"]
    c = cfg(model_type=d["model"], type=d["type"], n_neurons=d["w"], hidden_layers=d["h"], Nx=d["nx"], Ny=d["ny"], eps_oversampling=d["over"], N_layers=d["nl"], N_freq=nf, PER_LAYER_THICKNESS=list(thick),
            freq_distribution=d["dist"], siren_omega=d["omega"], seed=d["seed"], iterations=1, TRCWA_NG=1, target_reflectance_spectrum=[0.3] * nf, target_transmittance_spectrum=[0.3] * nf, learning_rate=1e-9,
            real_min_eps=d["b"][0], real_max_eps=d["b"][1], imag_min_eps=d["q"][0], imag_max_eps=d["q"][1], avoid_zero_eps=True, physical_wavelength_range=[1e-6, 9e-6])
    rows = Rows()
    depth = [0]
    init = {}

    def pre(m, a):
        if depth[0] == 0 and not init:
            init.update({k: v.detach().clone() for k, v in m.state_dict().items()})
        depth[0] += 1

    def post(m, a, out):
        depth[0] -= 1
        if depth[0] == 0 and a and out is not None:
            rows.add(a[0], out)

    h = [M.register_module_forward_pre_hook(pre), M.register_module_forward_hook(post, always_call=True)]
    try:
        r = nidn.run_training(c)
    finally:
        for x in h:
            x.remove()
    m = r.model
    o = Obs()
    ps = list(m.parameters())
    if d["model"] == "voxel":
        n = d["nx"] * d["ny"] * d["nl"] * nf
        require(len(ps) == 1 and ps[0].numel() == n and ps[0].is_complex() and ps[0].requires_grad, f"voxel model has parameters {[(tuple(p.shape), p.dtype) for p in ps]} for {n} permittivities")
        v = list(init.values())[0].numpy()
        require(v.real.min() >= d["b"][0] - 1e-4 and v.real.max() <= d["b"][1] + 1e-4 and v.imag.min() >= d["q"][0] - 1e-6 and v.imag.max() <= d["q"][1] + 1e-6, f"initial voxels outside the allowed range: {v.real.min()}..{v.real.max()}, {v.imag.min()}..{v.imag.max()}")
        if n >= 4:
            require(len(np.unique(v)) == n, "initial voxels are not independent")
        if n >= 12:
            for a, (lo, hi) in ((v.real, d["b"]), (v.imag, d["q"])):
                require(np.ptp(a) > 0.35 * (hi - lo), f"{n} initial voxels span only [{a.min()}, {a.max()}] of [{lo}, {hi}]")
        e, _ = nidn.model_to_eps_grid(m, r)
        wts = g.normal(size=tuple(e.shape)) + 1j * g.normal(size=tuple(e.shape))
        m.zero_grad()
        (torch.view_as_real(e) * torch.view_as_real(torch.tensor(wts))).sum().backward()
        gr = ps[0].grad
        require(gr is not None and bool(torch.isfinite(torch.view_as_real(gr)).all()), "voxel gradient missing or not finite")
        inside = (np.abs(v.real) > 0.02) & (v.real > d["b"][0] + 1e-3) & (v.real < d["b"][1] - 1e-3) & (v.imag > d["q"][0] + 1e-4) & (v.imag < d["q"][1] - 1e-4)
        err = np.abs(gr.numpy() - wts)[inside]
        require(err.size == 0 or err.max() < 1e-5, "the permittivities are not each given by its own voxel")
        o.add("voxels observed", n)
        o.nontrivial = n > 1
        return o
    nout = 2 if d["type"] == "regression" else nidn.MaterialCollection(r.target_frequencies).N_materials
    sizes = [d["nx"] // d["over"], d["ny"] // d["over"], d["nl"], nf]
    tab, ticks = rows.table(sizes)
    require(tab.shape[-1] == nout, f"{tab.shape[-1]} outputs, {nout} needed")
    require(np.all(np.isfinite(tab)) and tab.min() >= 0 and tab.max() <= 1, f"outputs in [{tab.min()}, {tab.max()}]")

    def affine(t, ref, what):
        t, ref = np.asarray(t), np.asarray(ref, float)
        if len(t) > 1:
            want = t[0] + (ref - ref[0]) / (ref[-1] - ref[0]) * (t[-1] - t[0])
            require(np.abs(t - want).max() < 1e-4 * abs(t[-1] - t[0]), f"{what} coordinates {t}, expected spacing as {want}")

    affine(ticks[0], np.arange(sizes[0]), "x")
    affine(ticks[1], np.arange(sizes[1]), "y")
    full = thick * d["nl"] if len(thick) == 1 else thick
    affine(ticks[2], np.cumsum(full), "layer")
    affine(ticks[3], np.asarray(r.target_frequencies), "frequency")
    for t, what, lim in ((ticks[0], "x", 1.0), (ticks[1], "y", 1.0), (ticks[2], "layer", None)):
        if len(t) > 1:  # the grid is centred on the origin
            require(abs(t[0] + t[-1]) < 1e-4 * abs(t[-1] - t[0]) and (lim is None or abs(t[-1] - lim) < 1e-5), f"{what} coordinates run from {t[0]} to {t[-1]}, not symmetrically")
    o.add("coordinates observed", tab[..., 0].size)
    # the recorded outputs are those of the returned model (the step was negligible) at each coordinate alone
    x = np.concatenate(rows.x)
    y = np.concatenate(rows.y)
    k = g.permutation(len(x))[:40]
    with torch.no_grad():
        y2 = m(torch.tensor(x[k])).numpy()
        y1 = np.concatenate([m(torch.tensor(x[i : i + 1])).numpy() for i in k])
        far = torch.tensor(np.concatenate([g.uniform(-1, 1, (20, 2)), g.uniform(-1000, 1000, (20, 1)), g.uniform(-32, 32, (20, 1))], 1))
        yf = m(far).numpy()
        many = torch.tensor(np.concatenate([g.uniform(-1, 1, (900, 2)), g.uniform(-1000, 1000, (900, 1)), g.uniform(-32, 32, (900, 1))], 1)).to(far.dtype)
        many[700:720] = far
        ym = m(many).numpy()[700:720]
        yp = m(far.flip(0)).numpy()[::-1]
    require(np.abs(y2 - y1).max() < 1e-9, "the output at a coordinate depends on the others evaluated with it")
    require(np.abs(y2 - y[k]).max() < 1e-3, "the permittivities do not come from the returned model")
    require(np.abs(yf - yp).max() < 1e-9, "the output at a coordinate depends on its position in the batch")
    require(np.abs(yf - ym).max() < 1e-9, "the output at a coordinate depends on the others evaluated with it")
    require(yf.shape == (20, nout) and np.all(np.isfinite(yf)) and yf.min() >= 0 and yf.max() <= 1, f"outputs of shape {yf.shape} in [{yf.min()}, {yf.max()}]")
    o.add("outputs re-evaluated", len(k) + 20)
    # sizes and gradients
    W = [p for p in ps if p.dim() == 2]
    require(len(W) == d["h"] + 2, f"{len(W)} linear maps for {d['h']} hidden layers")
    require(all(w.shape[0] == d["w"] for w in W[:-1]) and W[-1].shape[0] == nout, f"layer widths {[tuple(w.shape) for w in W]} for n_neurons={d['w']}")
    if d["model"] == "nerf":  # the inputs are fed in again behind the fifth map, if another hidden one follows
        again = [i for i, w in enumerate(W) if i and w.shape[1] == d["w"] + 4]
        require(again == ([5] if d["h"] >= 5 else []), f"nerf network with {d['h']} hidden layers takes its inputs again in map(s) {again}")
    # the function is that of the named architecture with these parameters
    bs = [p.detach().numpy().astype(float) for p in ps if p.dim() == 1]
    require(len(bs) == len(W), f"{len(bs)} biases for {len(W)} linear maps")
    z = x0 = far.numpy().astype(float)
    for i, (w, b) in enumerate(zip(W, bs)):
        w = w.detach().numpy().astype(float)
        if w.shape[1] == z.shape[1] + x0.shape[1]:  # skip connection of the inputs
            o.add("skip connections evaluated")
            z = np.concatenate([z, x0], 1)
        z = z @ w.T + b
        last = i == len(W) - 1
        z = 1 / (1 + np.exp(-np.clip(z, -700, 700))) if last else np.sin(d["omega"] * z) if d["model"] == "siren" else np.maximum(z, 0)
    require(np.abs(z - yf).max() < 1e-6, f"the {d['model']} network does not evaluate to the function of its parameters (deviation {np.abs(z - yf).max()})")
    m.zero_grad()
    out = m(torch.tensor(x))
    (out * torch.tensor(g.normal(size=tuple(out.shape)))).sum().backward()
    some = 0
    for name, p in m.named_parameters():
        require(p.requires_grad and p.grad is not None and bool(torch.isfinite(p.grad).all()), f"parameter {name} has no finite gradient")
        some += float(p.grad.abs().max()) > 0
    if np.any((y > 0.001) & (y < 0.999)):  # not saturated
        require(some > 0, "no parameter influences the output")
    o.add("parameters with gradient", some)
    o.seen("kind", (d["model"], d["type"], d["h"]))
    o.nontrivial = len(x) > 1
    o.sample = {"z": [round(float(v), 3) for v in ticks[2]], "out": [round(float(v), 4) for v in y[0][:3]]}
    return o
