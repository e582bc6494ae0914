"""C14: regression designs cover exactly the allowed permittivity range."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon.modelcase import Rows, stub

PROPERTY = "C14"
RULE = (
    "model_to_eps_grid for network models with random, binary (0/1), out-of-range, near-middle and constant outputs and for voxel models with values in and outside the range, on random grid "
    "shapes (incl. non-square), oversampling factors, bounds (symmetric, one-sided, negative imaginary, tiny, degenerate), noise and zero-avoidance. The monitor records every evaluated "
    "coordinate and output and recomputes the grid from them. Non-trivial: more than one grid point and non-constant permittivity; distinct by case."
)
ASSUMPTIONS = ["single-precision results are compared to 6e-7 of the range", "voxel models ignore the oversampling factor", "bounds hold apart from zero-avoidance"]
BUDGET = {"quick": 25, "thorough": 300}
REQUIRED = {"permittivities compared": 5000, "zero-avoided": 20}


def cases(rng, tier):
    out = []
    for i in range(500 if tier == "quick" else 30000):
        ov = rng.choice([1, 1, 1, 2, 3])
        b = rng.choice([[-100.0, 100.0], [1.0, 12.0], [-20.0, -2.0], [0.5, 0.5], [-0.05, 0.05], [-3.0, 100.0], [0.0, 5.0]])
        q = rng.choice([[0.0, 3.0], [0.0, 0.0], [-1.0, 1.0], [-2.0, -0.5], [0.5, 2.5]])
        noise = rng.random() < 0.3
        out.append(dict(s=seed(rng), model=rng.choice(["siren", "nerf", "voxel", "stubvoxel"]), kind=rng.choice(["random", "random", "binary", "outside", "middle", "zero", "one"]),
                        nx=ov * rng.choice([1, 1, 2, 3, 5]), ny=ov * rng.choice([1, 1, 2, 4]), nl=rng.choice([1, 2, 3, 7]), nf=rng.choice([1, 1, 2, 3, 6]), over=ov, b=b, q=q,
                        noise=noise, scale=rng.choice([0.001, 0.01, 0.3]), avoid=rng.random() < 0.5, dist=rng.choice(["linear", "log"]), single=rng.random() < 0.5, c64=rng.random() < 0.5))
    for i in range(4 if tier == "quick" else 60):  # many grid points
        ov = rng.choice([1, 2])
        out.insert(i, dict(out[i], s=seed(rng), model=["siren", "nerf", "voxel", "siren"][i % 4], kind="random", nx=ov * rng.choice([11, 20]), ny=ov * rng.choice([13, 20]), nl=rng.choice([3, 7, 12]), nf=rng.choice([5, 6, 20]), over=ov, noise=False))
    return out


def run(case):
    import nidn, torch

    d = case
    g = gen(d)
    mt = "voxel" if d["model"] == "stubvoxel" else d["model"]
    c = cfg(model_type=mt, type="regression", Nx=d["nx"], Ny=d["ny"], N_layers=d["nl"], N_freq=d["nf"], eps_oversampling=d["over"], real_min_eps=d["b"][0], real_max_eps=d["b"][1],
            imag_min_eps=d["q"][0], imag_max_eps=d["q"][1], add_noise=d["noise"], noise_scale=d["scale"], avoid_zero_eps=d["avoid"], freq_distribution=d["dist"],
            PER_LAYER_THICKNESS=[0.4] if d["single"] else [round(float(x), 3) for x in g.uniform(0.1, 1, d["nl"])])
    freqs(c)
    c.out_features = 2
    shape = (c.Nx, c.Ny, c.N_layers, c.N_freq)
    rows = Rows()
    w = None
    if mt != "voxel":
        m = stub(rows, 2, d["s"], d["kind"])
    else:
        v = g.uniform(*d["b"], shape) + 1j * g.uniform(*d["q"], shape)
        if d["kind"] in ("outside", "binary"):
            v = v + g.choice([-150, 150], shape) + 1j * g.choice([-9, 9], shape)
        if d["kind"] in ("zero", "middle"):
            v = v * 1e-3
        w = torch.tensor(v, dtype=torch.cfloat if d["c64"] else torch.cdouble)
        try:
            Voxel = internal("nidn.training.utils.voxel", "Voxel")
        except ImportError:
            Voxel = None
        if d["model"] == "voxel" and Voxel is not None:
            m = Voxel(c)
            with torch.no_grad():
                list(m.parameters())[0].copy_(w)
        else:
            class V(torch.nn.Module):
                def __init__(s):
                    super().__init__()
                    s.p = torch.nn.Parameter(w.clone())

                def forward(s):
                    return s.p

            m = V()
    eps, ids = nidn.model_to_eps_grid(m, c)
    require(tuple(eps.shape) == shape, f"grid of shape {tuple(eps.shape)}, configured {shape}")
    require(eps.is_complex(), f"grid of type {eps.dtype}")
    require(eps.requires_grad, "the permittivities are not connected to the model")
    e = eps.detach().numpy().astype(complex)
    (r0, r1), (i0, i1) = d["b"], d["q"]
    sr, si = 6e-7 * max(abs(r0), abs(r1), r1 - r0), 6e-7 * max(abs(i0), abs(i1), i1 - i0, 0.01)
    slackr = sr + (0.01 if d["avoid"] and r0 < 0.01 and r1 > -0.01 else 0)  # pushed out of a range that ends near zero
    if d["avoid"] and r0 >= -0.01 and r1 <= 0.01:
        slackr = 0.02
    require(np.all(np.isfinite(e)), "non-finite permittivity")
    require(e.real.min() >= r0 - slackr and e.real.max() <= r1 + slackr, f"real part in [{e.real.min()}, {e.real.max()}], allowed [{r0}, {r1}]")
    require(e.imag.min() >= i0 - si and e.imag.max() <= i1 + si, f"imaginary part in [{e.imag.min()}, {e.imag.max()}], allowed [{i0}, {i1}]")
    if d["avoid"]:
        require(np.abs(e.real).min() >= 0.01 * (1 - 1e-6), f"zero-avoidance left a real part of {np.abs(e.real).min()}")
    # expected grid without noise
    if mt != "voxel":
        tab, _ = rows.table([c.Nx // d["over"], c.Ny // d["over"], c.N_layers, c.N_freq])
        tab = np.clip(tab, 0, 1)
        want = (r0 + tab[..., 0] * (r1 - r0)) + 1j * (i0 + tab[..., 1] * (i1 - i0))
        want = np.kron(want, np.ones((d["over"], d["over"], 1, 1)))
    else:
        v = w.numpy().astype(complex)
        want = np.clip(v.real, r0, r1) + 1j * np.clip(v.imag, i0, i1)
    o = Obs()
    raw = want.real.copy()
    if d["noise"]:
        # every deviation is bounded by the noise amplitude (8 sigma), and there is one
        lim = 2 * 8.5 * d["scale"]
        require(np.all(np.abs(e.real - raw) <= lim * (r1 - r0) + slackr + 0.02), "noise is larger than its scale allows")
        require(np.all(np.abs(e.imag - want.imag) <= lim * (i1 - i0) + si), "noise of the imaginary part is larger than its scale allows")
        if r1 - r0 > 1 and d["kind"] in ("random", "middle") and mt != "voxel":
            require(np.any(np.abs(e.real - raw) > sr), "noise was requested but not added")
        o.add("noisy grids")
    else:
        if d["avoid"]:
            near = np.abs(raw) < 0.01
            av = np.where(raw >= 0, 0.01, -0.01)
            exp = np.where(near, av, raw)
            # the sign of values within rounding of zero is a matter of rounding
            amb = np.abs(raw) <= sr
            ok = np.abs(e.real - exp) <= sr + 1e-8
            ok |= amb & (np.abs(np.abs(e.real) - 0.01) <= sr + 1e-8)
            o.add("zero-avoided", near.sum())
        else:
            ok = np.abs(e.real - raw) <= sr + 1e-8
        if not np.all(ok):
            k = np.unravel_index(np.argmax(~ok), shape)
            raise Violation(f"real part at {k} is {e.real[k]!r}, the model's value corresponds to {raw[k]!r} (bounds {r0}, {r1})")
        ok = np.abs(e.imag - want.imag) <= si + 1e-8
        if not np.all(ok):
            k = np.unravel_index(np.argmax(~ok), shape)
            raise Violation(f"imaginary part at {k} is {e.imag[k]!r}, the model's value corresponds to {want.imag[k]!r} (bounds {i0}, {i1})")
        o.add("permittivities compared", e.size)
        if d["kind"] == "binary" and mt != "voxel":
            o.add("values at the bounds", e.size)
    o.seen("kind", (d["model"], d["kind"], d["over"]))
    o.nontrivial = e.size > 1 and np.ptp(e.real) > 0
    o.sample = {"eps": str(e.ravel()[:3])}
    return o
