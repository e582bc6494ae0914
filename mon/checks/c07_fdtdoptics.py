"""C07: FDTD spectra against exact thin-film optics and the TRCWA solver."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.fdtdcase import *
from mon.ref.optics import tmm

PROPERTY = "C07"
RULE = (
    "Well-resolved (>= 10 cells per wavelength in the densest layer), settled (>= 1.6 x the recommended number of steps) continuous-source FDTD "
    "simulations of vacuum, dielectric and absorbing stacks of 1-3 layers at one or two wavelengths; the returned R and T are compared with thin-film theory of the gridded layers and "
    "with nidn's TRCWA solver. Non-trivial: vacuum case, or thin-film R > 0.01; distinct by case."
)
ASSUMPTIONS = [
    "tolerance = 0.04 + 2 x the largest change of the thin-film result under the scheme's dispersion (2/N^2 of optical thickness, N cells per wavelength), "
    "the rounding of the period to time steps, and 0.1 cell of thickness",
    "in addition R and T lie within 0.045 of the range between thin-film optics and the exact steady state of the discretised layers (a recursion over the cells)",
    "thicknesses are those after rounding to grid cells (the code warns about this)",
]
BUDGET = {"quick": 40, "thorough": 900}
MIN_CASES = {"quick": 20, "thorough": 60}
REQUIRED = {"values compared": 30, "vacuum stacks": 3}


def cases(rng, tier):
    n = 40 if tier == "quick" else 900
    out = []
    while len(out) < n:
        i = len(out)
        lo = rnd(rng, 0.9, 1.4)
        two = i % 3 == 1
        d = draw(rng, nl=[1, 2, 1, 3][i % 4], nf=2 if two else 1, pulse="continuous", source="line", kind="vacuum" if i % 8 == 0 else "dielectric",
                 minpts=rng.choice([14, 18, 22, 26]), wl=[lo, round(lo * rng.uniform(1.05, 1.6 if not two else 1.9), 4)], thick=(0.1, 0.5))
        d["fs"] = max(d["fs"], 0.6)
        if d["kind"] != "vacuum":
            d["eps"] = [[[rnd(rng, 1.3, 5.0), rng.choice([0.0, 0.0, rnd(rng, 0.01, 1.0)] if not two else [0.0, rnd(rng, 0.2, 2.0)])] for _ in range(d["nf"])] for _ in range(d["nl"])]
            if d["nl"] > 1 and i % 2:
                e = relate(np.random.default_rng(d["s"]), perm(d))
                d["eps"] = [[[float(x.real), float(x.imag)] for x in row] for row in e]
                d["related"] = True
        e = perm(d)
        p, margin, s = F.positions(d)
        lam = max(wavelengths(d))
        nmax = float(np.sqrt(e.real.max()))
        if min(wavelengths(d)) * s / nmax < 10 or p["pml"] < 15:
            continue
        d["niter"] = int(1.6 * 1.4143 * s * (d["fs"] + 3 * sum(d["thick_full"]) * nmax + 5 * lam)) + 5
        if d["niter"] > (900 if not two else 600):
            continue
        out.append(d)
    return out


def run(d):
    import nidn, torch

    e = perm(d)
    c = config(d)
    p, margin, s = F.positions(d)
    R, T = nidn.compute_spectrum(torch.tensor(e)[None, None], c)
    R, T = nums(R), nums(T)
    require(len(R) == len(T) == d["nf"], f"{len(R)} and {len(T)} values for {d['nf']} frequencies")
    o = Obs()
    o.nontrivial = d["kind"] == "vacuum"
    th = [(b - a) / s for a, b in zip(p["edges"], p["edges"][1:])]
    if d["kind"] != "vacuum":
        c2 = config(d, solver="TRCWA", PER_LAYER_THICKNESS=[float(x) for x in th])
        freqs(c2)
        R2, T2 = map(nums, nidn.compute_spectrum(torch.tensor(e)[None, None], c2))
    judged = 0
    for i, lam in enumerate(wavelengths(d)):
        if d["kind"] == "vacuum":
            require(R[i] == 0.0, f"a vacuum stack reflects {R[i]}")
            require(abs(T[i] - 1) < 0.04, f"a vacuum stack transmits {T[i]}")
            o.add("vacuum stacks")
            o.peak("vacuum |T-1|", abs(T[i] - 1))
            judged += 1
            continue
        ee = list(e[:, i])
        r, t = tmm(1 / lam, ee, th, q_abs=1e12)
        dev = 0.0
        N = lam * s / np.sqrt(e[:, i].real.max())
        per = lam * s / (0.99 / np.sqrt(2))
        for f in (1 + 2 / N**2 + 0.5 / per, 1 + 1 / N**2, 1 - 1 / N**2, 1 - 2 / N**2 - 0.5 / per):
            a, b = tmm(f / lam, ee, th, q_abs=1e12)
            dev = max(dev, abs(a - r), abs(b - t))
        for k in range(len(th)):
            for sg in (1, -1):
                t2 = list(th)
                t2[k] += sg * 0.1 / s
                a, b = tmm(1 / lam, ee, t2, q_abs=1e12)
                dev = max(dev, abs(a - r), abs(b - t))
        tol = 0.04 + 2 * dev
        if tol > 0.2:
            o.add("too sensitive for the resolution, not judged")
            continue
        require(
            abs(R[i] - r) <= tol and abs(T[i] - t) <= tol,
            f"wavelength {lam:.4f}: FDTD R={R[i]:.4f} T={T[i]:.4f}, thin-film optics R={r:.4f} T={t:.4f} (tolerance {tol:.3f}, {N:.1f} cells per wavelength)",
        )
        rs, ts = F.steady(d, lam, e[:, i])
        off = max(min(r, rs) - R[i], R[i] - max(r, rs), min(t, ts) - T[i], T[i] - max(t, ts))
        require(
            off <= 0.045,
            f"wavelength {lam:.4f}: FDTD R={R[i]:.4f} T={T[i]:.4f}; thin-film optics R={r:.4f} T={t:.4f}, steady state of the discretised layers R={rs:.4f} T={ts:.4f}",
        )
        o.peak("distance from the steady state", max(abs(R[i] - rs), abs(T[i] - ts)))
        require(R[i] >= 0 and T[i] >= 0 and R[i] + T[i] <= 1 + 1e-9, f"R={R[i]} T={T[i]} violates energy conservation")
        require(
            abs(R[i] - R2[i]) <= tol and abs(T[i] - T2[i]) <= tol,
            f"wavelength {lam:.4f}: FDTD R={R[i]:.4f} T={T[i]:.4f} but TRCWA R={R2[i]:.4f} T={T2[i]:.4f} (tolerance {tol:.3f})",
        )
        o.add("values compared", 4)
        o.peak("deviation", max(abs(R[i] - r), abs(T[i] - t)))
        o.peak("deviation/tolerance", max(abs(R[i] - r), abs(T[i] - t)) / tol)
        o.peak("tolerance", tol)
        if r > 0.01:
            o.nontrivial = True
        judged += 1
    if not judged:
        raise Skip("thin-film result too sensitive for this resolution")
    o.add("stacks of related layers", int(d.get("related", False)))
    o.seen("frequencies", d["nf"])
    o.sample = {"R": R, "T": T}
    return o
