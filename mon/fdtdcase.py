"""Random FDTD configurations, running them under a grid monitor."""
import numpy as np
from mon.util import *
from mon.ref import fdtd1d as F


def draw(rng, nl=None, nf=None, pulse=None, source=None, kind=None, minpts=None, wl=None, settle=None, eps_max=8.0, single=None, thick=(0.08, 0.8), where="free", k=None, fs=(0.6, 1.4), pml=(0.8, 2.0)):
    """One valid configuration whose cell positions are clear of rounding boundaries."""
    for _ in range(1000):
        nl_ = nl or rng.choice([1, 1, 2, 3, 4])
        d = dict(
            wl=list(wl) if wl else [rnd(rng, 0.7, 1.6), rnd(rng, 1.61, 2.6)],
            nf=nf or rng.choice([1, 1, 2]),
            dist=rng.choice(["linear", "log"]),
            minpts=minpts or rng.choice([6, 8, 10, 12, 15]),
            pml=rnd(rng, *pml),
            fs=rnd(rng, *fs),
            k=k or rng.choice([1, 2, 2, 3, 5]),
            pulse=pulse or rng.choice(["continuous", "continuous", "hanning", "ricker"]),
            source=source or rng.choice(["line", "line", "point"]),
            niter=rng.choice([120, 160, 200, 260]),
            s=seed(rng),
            nl=nl_,
            kind=kind or rng.choice(["dielectric", "lossy", "mixed", "high"] if nl_ == 1 else ["dielectric", "lossy", "mixed", "high", "related", "related"]),
        )
        one = (rng.random() < 0.3) if single is None else single
        d["thick"] = [rnd(rng, *thick) for _ in range(1 if one else nl_)]
        d["thick_full"] = d["thick"] * nl_ if one else list(d["thick"])
        tot = 2 * d["pml"] + 2 * d["fs"] + sum(d["thick_full"])
        w = where if where != "any" else rng.choice(["free", "free", "pml", "behind"])
        if w == "free":
            d["src"] = [round(d["pml"] + rng.uniform(0.05, 0.9) * d["fs"], 4), rnd(rng, 0.2, 2.0)]
        elif w == "pml":
            d["src"] = [round(d["pml"] * rng.uniform(0.7, 1.0), 4), rnd(rng, 0.2, 2.0)]
        else:
            d["src"] = [round(tot - d["pml"] - rng.uniform(0.1, 0.9) * d["fs"], 4), rnd(rng, 0.2, 2.0)]
        p, margin, s = F.positions(d)
        if margin < 0.03 or p["pml"] < 3 or int(s * d["fs"]) < d["k"] + 1:
            continue
        if any(b <= a for a, b in zip(p["edges"], p["edges"][1:])):
            continue
        if p["t"] >= p["size"] - 1:
            continue
        return d
    raise RuntimeError("no configuration found")


def perm(d):
    """complex permittivities [layer, frequency]; real part >= 1 (explicitly stepped scheme)"""
    g = np.random.default_rng(d["s"])
    shape = (d["nl"], d["nf"])
    if "eps" in d:
        return np.array([[complex(*x) for x in row] for row in d["eps"]])
    k = d["kind"]
    if k == "vacuum":
        return np.ones(shape) + 0j
    if k == "dielectric":
        return g.uniform(1.0, 8, shape) + 0j
    if k == "lossy":
        return g.uniform(1.0, 8, shape) + 1j * g.uniform(0, 3, shape)
    if k == "high":
        return g.uniform(5, 20, shape) + 1j * g.uniform(0, 1, shape) * (g.random() < 0.5)
    if k == "mixed":
        e = g.uniform(1.0, 6, shape) + 1j * g.uniform(0, 1, shape)
        e[g.integers(d["nl"])] = 1.0
        return e
    if k == "gain":  # some layers amplify
        return g.uniform(1.0, 6, shape) - 1j * g.uniform(0.01, 0.6, shape)
    if k == "dense":
        return g.uniform(20, 80, shape) + 1j * g.uniform(0, 10, shape) * (g.random() < 0.5)
    if k == "related":
        e = g.uniform(1.0, 6, shape) + 1j * g.uniform(0.2, 2, shape) * (g.random(shape) < 0.7)
        return relate(g, e)
    raise KeyError(k)


def config(d, **kw):
    c = cfg(
        solver="FDTD", Nx=1, Ny=1, N_layers=d["nl"], N_freq=d["nf"], PER_LAYER_THICKNESS=list(d["thick"]),
        physical_wavelength_range=[w * 1e-6 for w in d["wl"]], freq_distribution=d["dist"], FDTD_niter=d["niter"],
        FDTD_min_gridpoints_per_unit_magnitude=d["minpts"], FDTD_pml_thickness=d["pml"], FDTD_free_space_distance=d["fs"],
        FDTD_gridpoints_from_material_to_detector=d["k"], FDTD_source_position=list(d["src"]), FDTD_source_type=d["source"],
        FDTD_pulse_type=d["pulse"],
    )
    for k, v in kw.items():
        c[k] = v
    return c


def wavelengths(d):
    """in um, in the order of ascending frequency"""
    f0, f1, n = 1 / d["wl"][1], 1 / d["wl"][0], d["nf"]
    if d["dist"] == "linear":
        f = np.linspace(f0, f1, n)
    else:
        f = np.exp(np.linspace(np.log(f0), np.log(f1), n))
    return [1 / x for x in f]


class GridMonitor:
    """Collects every simulation grid that is created while active."""

    def __enter__(self):
        import nidn.fdtd.grid as G

        self.G = G
        self.grids = []
        self.orig = G.Grid.__init__
        mon = self

        def init(g, *a, **k):
            mon.orig(g, *a, **k)
            mon.grids.append(g)

        G.Grid.__init__ = init
        return self

    def __exit__(self, *a):
        self.G.Grid.__init__ = self.orig


def arr(x):
    """stacked detector record -> numpy"""
    import torch

    if isinstance(x, (list, tuple)):
        return np.array([arr(v) for v in x])
    if torch.is_tensor(x):
        return x.detach().cpu().numpy()
    return np.asarray(x)
