"""C18: frequency points span the configured wavelengths, in order."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *

PROPERTY = "C18"
RULE = (
    "compute_target_frequencies / get_frequency_points / unit conversions for random ranges (1 nm to 1 m, narrow and wide), counts 1-200 and distributions, scalars, arrays and tensors; "
    "configurations changed and asked again; and the frequencies a training run puts into its configuration, also over old ones. Non-trivial: at least 2 points; distinct by case."
)
ASSUMPTIONS = ["a single point is 1/longest wavelength (first point of the range)"]
BUDGET = {"quick": 20, "thorough": 200}
REQUIRED = {"points compared": 5000, "changed configurations": 500}
MIN_NONTRIVIAL = 100


def cases(rng, tier):
    out = []
    for i in range(800 if tier == "quick" else 50000):
        a = 10 ** rng.uniform(-9, -1)
        w = rng.choice([1 + 1e-6, 1.01, 1.5, 3, 30, 1000])
        out.append(dict(s=seed(rng), part="f", wl=[a, a * w], n=rng.choice([1, 2, 3, 5, 17, 20, 200]), dist=rng.choice(["linear", "log"])))
    for i in range(100 if tier == "quick" else 3000):
        out.append(dict(s=seed(rng), part="unit", form=rng.choice(["float", "array", "tensor"])))
    for i in range(12 if tier == "quick" else 200):
        out.append(dict(s=seed(rng), part="train", wl=[rnd(rng, 0.5, 2), rnd(rng, 2.1, 30)], n=rng.choice([1, 2, 4]), dist=rng.choice(["linear", "log"])))
    for bad in ["", "lin", "Linear", "logarithmic", "LOG", "random"]:
        out.append(dict(s=0, part="bad", dist=bad))
    return out


def points(wl, n, dist):
    a, b = 1e-6 / wl[1], 1e-6 / wl[0]
    t = np.arange(n) / max(n - 1, 1)
    return a + (b - a) * t if dist == "linear" else a * (b / a) ** t


def run(case):
    import nidn, torch

    d = case
    o = Obs()
    if d["part"] == "bad":
        try:
            nidn.compute_target_frequencies(1e-6, 3e-6, 4, d["dist"])
        except Exception:
            o.add("unknown distributions rejected")
            o.nontrivial = False
            return o
        raise Violation(f"distribution {d['dist']!r} was accepted")
    g = gen(d)
    if d["part"] == "unit":
        v = 10 ** g.uniform(-9, 3, 5)
        x = {"float": float(v[0]), "array": v, "tensor": torch.tensor(v)}[d["form"]]
        pairs = [("freq_to_wl", "freq_to_wl"), ("phys_freq_to_phys_wl", "phys_freq_to_phys_wl")]
        from nidn.utils import convert_units as cu

        if hasattr(cu, "phys_wl_to_wl"):
            pairs.append(("phys_wl_to_wl", "wl_to_phys_wl"))
            pairs.append(("wl_to_phys_wl", "phys_wl_to_wl"))
        for a, b in pairs:
            fa, fb = getattr(nidn, a, None) or getattr(cu, a), getattr(nidn, b, None) or getattr(cu, b)
            y = np.asarray(fb(fa(x)))
            require(np.allclose(y, np.asarray(x), rtol=1e-12, atol=0), f"{b}({a}({x})) = {y}")
            o.add("points compared", y.size)
        xx = np.asarray(x)
        require(np.allclose(np.asarray(nidn.freq_to_wl(x)), 1 / xx, rtol=1e-12, atol=0), "freq_to_wl is not the reciprocal")
        require(np.allclose(np.asarray(nidn.wl_to_phys_wl(x)), xx * 1e-6, rtol=1e-12, atol=0), "wl_to_phys_wl is not micrometres to metres")
        require(np.allclose(np.asarray(nidn.phys_freq_to_phys_wl(x)), 299792458.0 / xx, rtol=1e-6, atol=0), f"phys_freq_to_phys_wl({xx}) = {nidn.phys_freq_to_phys_wl(x)}")
        # field units of the FDTD simulator
        from nidn.fdtd import conversions as fc

        for k, c0 in (("E", 8.8541878128e-12), ("H", 4e-7 * np.pi)):
            to, back = getattr(fc, f"world{k}_to_sim{k}"), getattr(fc, f"sim{k}_to_world{k}")
            require(np.allclose(np.asarray(to(x)), np.sqrt(c0) * xx, rtol=1e-6, atol=0), f"world{k}_to_sim{k}({xx}) = {to(x)}")
            require(np.allclose(np.asarray(back(x)), xx / np.sqrt(c0), rtol=1e-6, atol=0), f"sim{k}_to_world{k}({xx}) = {back(x)}")
            require(np.allclose(np.asarray(back(to(x))), xx, rtol=1e-12, atol=0), f"sim{k}_to_world{k} does not undo world{k}_to_sim{k}")
        return o
    n, dist = d["n"], d["dist"]
    if d["part"] == "train":
        wl = [w * 1e-6 for w in d["wl"]]
        c = cfg(N_freq=n, freq_distribution=dist, physical_wavelength_range=list(wl), N_layers=1, iterations=1, TRCWA_NG=1, model_type="voxel", target_reflectance_spectrum=[0.5] * n,
                target_transmittance_spectrum=[0.5] * n)
        if g.random() < 0.6:  # frequencies left by an earlier use of the configuration
            c.physical_wavelength_range = [wl[0] * 1.3, wl[1] * 1.7]
            nidn.get_frequency_points(c)
            c.physical_wavelength_range = list(wl)
        r = nidn.run_training(c)
        f = np.asarray(r.target_frequencies, float)
    else:
        wl = d["wl"]
        f = np.asarray(nidn.compute_target_frequencies(wl[0], wl[1], n, dist), float)
    want = points(wl, n, dist)
    require(f.shape == (n,), f"{f.shape} points for N_freq={n}")
    require(np.all(np.isfinite(f)) and np.allclose(f, want, rtol=1e-9, atol=0), f"frequencies {f[:4]}..., expected {want[:4]}... ({dist}, {wl})")
    require(np.all(np.diff(f) > 0), "frequencies are not ascending")
    c = cfg(N_freq=n, freq_distribution=dist, physical_wavelength_range=list(wl))
    phys, fr = nidn.get_frequency_points(c)
    require(np.allclose(np.asarray(fr, float), want, rtol=1e-9, atol=0), f"get_frequency_points gives {fr[:4]}, expected {want[:4]}")
    require(np.allclose(np.asarray(phys, float), 1e-6 / want, rtol=1e-9, atol=0), f"physical wavelengths {phys[:4]}, expected {1e-6 / want[:4]}")
    require("target_frequencies" in c and np.array_equal(np.asarray(c.target_frequencies), np.asarray(fr)), "get_frequency_points did not set the configuration's frequencies")
    require(list(c.physical_wavelength_range) == list(wl) and c.N_freq == n, "settings were changed")
    # the same configuration, changed and asked again
    for k in range(2):
        what = str(g.choice(["wl", "lower", "upper", "dist", "n", "all"]))
        w2, n2, d2 = list(c.physical_wavelength_range), c.N_freq, c.freq_distribution
        if what in ("wl", "all"):
            w2 = [w2[0] * g.uniform(0.3, 3), w2[1] * g.uniform(3.1, 9)]
        if what == "lower":
            w2[0] *= g.uniform(0.3, 0.9)
        if what == "upper":
            w2[1] *= g.uniform(1.1, 4)
        if what in ("dist", "all"):
            d2 = "log" if d2 == "linear" else "linear"
        if what in ("n", "all"):
            n2 = n2 + 1
        c.physical_wavelength_range, c.N_freq, c.freq_distribution = w2, n2, d2
        phys, fr = nidn.get_frequency_points(c)
        w = points(w2, n2, d2)
        require(len(fr) == n2 and np.allclose(np.asarray(fr, float), w, rtol=1e-9, atol=0), f"after a change of {what}, get_frequency_points gives {fr[:4]}, expected {w[:4]}")
        require(np.allclose(np.asarray(phys, float), 1e-6 / w, rtol=1e-9, atol=0) and np.allclose(np.asarray(c.target_frequencies), w, rtol=1e-9, atol=0), f"after a change of {what} the returned wavelengths or the stored frequencies are old ones")
        o.add("changed configurations")
        o.add("points compared", n2)
    o.add("points compared", n)
    o.seen("kind", (dist, n))
    o.nontrivial = n > 1
    o.sample = {"f": [float(x) for x in f[:3]]}
    return o
