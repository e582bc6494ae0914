"""C01: TRCWA spectra of uniform stacks against exact thin-film theory."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon.ref.optics import tmm_tol

PROPERTY = "C01"
RULE = (
    "Random stacks of uniform layers (1-12 layers, 1-8 frequencies, some up to 33 layers and 45 frequencies, linear/log, repeated frequencies, seven permittivity families "
    "incl. metals, near-zero and gain, thicknesses 1 nm to 3 um as one value or per layer, cover and substrate media, "
    "lattices, truncation orders, complex64/complex128 input, constant 2-D grids). Every returned value is compared with "
    "an independent transfer-matrix calculation. Non-trivial: the reference R and T are not both constant over the frequencies or "
    "the stack has a single frequency, and 1e-6 < R < 1-1e-6 for one of them; distinct by case."
)
ASSUMPTIONS = [
    "the documented relaxation freq*(1+i/(2*1e5)) is part of the specified result",
    "tolerance = 1e-7 + 3 x (change of the reference under a relative frequency change of 4e-7), because the code's pi is single precision",
]
BUDGET = {"quick": 25, "thorough": 600}
REQUIRED = {"values compared": 100}


def cases(rng, tier):
    n = 400 if tier == "quick" else 20000
    out = []
    for i in range(n):
        nl = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 12])
        single = rng.random() < 0.3
        wl = sorted([rnd(rng, 0.3, 3), rnd(rng, 3.01, 30)])
        out.append(
            dict(
                s=seed(rng),
                nl=nl,
                nf=rng.choice([1, 2, 3, 5, 8]),
                kind=rng.choice(LOSSY_KINDS + ["gain"]),
                thick=[10 ** rnd(rng, -3, 0.5) if rng.random() < 0.5 else rnd(rng, 0.02, 2) for _ in range(1 if single else nl)],
                top=rng.choice([1.0, 1.0, rnd(rng, 0.3, 6)]),
                bot=rng.choice([1.0, 1.0, rnd(rng, 0.3, 12)]),
                wl=wl,
                dist=rng.choice(["linear", "log"]),
                ng=rng.choice([1, 2, 5, 11, 11, 20]),
                L=[[rnd(rng, 0.05, 1.2), 0.0], [0.0, rnd(rng, 0.05, 1.2)]],
                dtype=rng.choice(["c128", "c128", "c64"]),
                grid=rng.choice([None, None, None, [6, 6], [4, 7]]),
                own=rng.random() < 0.2,
            )
        )
    for i in range(60 if tier == "quick" else 3000):  # far from everyday settings
        nl = rng.choice([1, 3, 20, 33])
        lo = 10 ** rnd(rng, -1.5, 1.7)
        sc = rng.choice([1.0, lo])  # thicknesses and wavelengths both small or large, or of different size
        out.insert(i * 5, dict(s=seed(rng), nl=nl, nf=rng.choice([1, 4, 24, 45]), kind=rng.choice(LOSSY_KINDS + ["gain"]), thick=[sc * 10 ** rnd(rng, -3, 0.3) for _ in range(rng.choice([1, nl]))],
                               top=rng.choice([1.0, rnd(rng, 6, 16)]), bot=rng.choice([1.0, rnd(rng, 12, 20)]), wl=[lo, lo * rng.choice([1.2, 3.0, 30.0])], dist=rng.choice(["linear", "log"]), ng=rng.choice([1, 11]),
                               L=[[rng.choice([0.01, 0.1, 5.0]) * lo, 0.0], [0.0, rng.choice([0.01, 0.1, 5.0]) * lo]], dtype="c128", grid=None, own=False))
    return out


def run(case):
    import nidn, torch

    g = gen(case)
    nl, nf = case["nl"], case["nf"]
    c = cfg(
        Nx=1, Ny=1, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=list(case["thick"]), TRCWA_TOP_LAYER_EPS=case["top"],
        TRCWA_BOTTOM_LAYER_EPS=case["bot"], physical_wavelength_range=[w * 1e-6 for w in case["wl"]],
        freq_distribution=case["dist"], TRCWA_NG=case["ng"], TRCWA_L_grid=[list(x) for x in case["L"]],
    )
    f = freqs(c)
    if case["own"]:  # user-chosen frequencies in any order
        f = [float(x) for x in g.permutation(g.uniform(0.05, 3, nf))]
        if nf > 1 and g.random() < 0.4:  # one of them twice
            k = int(g.integers(nf - 1))
            f[k + 1] = f[k]
        c.target_frequencies = np.array(f) if g.random() < 0.5 else list(f)
    e = eps_values(g, case["kind"], (nl, nf))
    if case["kind"] == "dielectric" and g.random() < 0.5:  # faint losses
        e = e.real + 1j * 10 ** g.uniform(-6, -3) * g.random((nl, nf))
    if g.random() < 0.3:  # one vacuum layer in between
        e[g.integers(nl)] = 1.0
    if nl > 1 and g.random() < 0.3:
        e = relate(g, e)
    if case["dtype"] == "c64":
        e = e.astype(np.complex64).astype(complex)
    t = torch.tensor(e, dtype=torch.cfloat if case["dtype"] == "c64" else torch.cdouble)[None, None]
    extra = 0.0
    if case["grid"] and case["ng"] <= 5:
        # same layers described by a constant grid
        c.Nx, c.Ny = case["grid"]
        c.TRCWA_NG = min(c.TRCWA_NG, 5)
        c.TRCWA_L_grid = [[0.21, 0.0], [0.0, 0.2]]
        t = t.repeat(c.Nx, c.Ny, 1, 1)
        extra = 1e-5
    R, T = nidn.compute_spectrum(t, c)
    require(len(R) == nf and len(T) == nf, f"{len(R)} / {len(T)} values for {nf} frequencies")
    R, T = nums(R), nums(T)
    th = case["thick"] * nl if len(case["thick"]) == 1 else case["thick"]
    o = Obs()
    nontriv = False
    base = 1e-7 if case["dtype"] == "c128" else 2e-5
    for i in range(nf):
        r, tt, tr, ttol = tmm_tol(f[i], list(e[:, i]), th, case["top"], case["bot"], base=base + extra)
        if case["dtype"] == "c64":
            # single-precision permittivities may enter single-precision arithmetic: condition on eps too
            for sgn in (1, -1):
                r2, t2, _, _ = tmm_tol(f[i], list(e[:, i] * (1 + sgn * 3e-7)), th, case["top"], case["bot"])
                tr += 30 * abs(r2 - r)
                ttol += 30 * abs(t2 - tt)
        if case["kind"] == "gain":  # unbounded values near lasing
            tr, ttol = tr + 1e-6 * r, ttol + 1e-6 * tt
            if tr > 0.05 or ttol > 0.05 or r + tt > 50:
                o.add("near lasing, not compared")
                continue
        require(np.isfinite(R[i]) and np.isfinite(T[i]), f"non-finite spectrum at {f[i]}: R={R[i]} T={T[i]}")
        require(
            abs(R[i] - r) <= tr and abs(T[i] - tt) <= ttol,
            f"frequency {i} ({f[i]}): code R={R[i]:.10f} T={T[i]:.10f}, thin-film theory R={r:.10f} T={tt:.10f} (tol {tr:.1e}, {ttol:.1e})",
        )
        o.add("values compared", 2)
        o.peak("error/tolerance", max(abs(R[i] - r) / tr, abs(T[i] - tt) / ttol))
        o.peak("tolerance", max(tr, ttol))
        nontriv = nontriv or 1e-6 < r < 1 - 1e-6
    o.seen("family", case["kind"] + "/" + case["dtype"] + ("/grid" if case["grid"] else ""))
    o.nontrivial = nontriv
    o.sample = {"R": R[:3], "T": T[:3]}
    return o
