"""C03: equivalent descriptions of one structure give equal TRCWA spectra."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.util import *
from mon.checks.c02_patterned import pattern
from mon.ref.optics import gset

PROPERTY = "C03"
RULE = (
    "A random (patterned or uniform) structure is simulated twice: as generated and after a transformation that keeps the optical "
    "problem (common lateral shift, mirror in x or y, constant grid instead of a uniform layer, a layer split in two or three, common "
    "thickness as one value or list, merging equal neighbours, substrate layers appended below, subsets/permutations of the frequencies, "
    "scaling of all lengths and wavelengths, reversed uniform stack for T). Non-trivial: the transformed input differs from the original; distinct by case."
)
ASSUMPTIONS = ["tolerance 1e-6 + 20 x the change of the result under a relative permittivity change of 1e-9; relaxation loss (Q=1e5) of added substrate is allowed for"]
BUDGET = {"quick": 30, "thorough": 600}
TRANS = ["shift", "shift", "mirror_x", "mirror_y", "split", "split", "common_list", "substrate", "substrate", "freq_subset", "freq_perm", "scale", "reverse", "reverse", "const_grid", "const_grid"]
REQUIRED = {"pairs compared": 60}


def cases(rng, tier):
    n = 240 if tier == "quick" else 5000
    out = []
    for i in range(n):
        tr = TRANS[i % len(TRANS)]
        uni = tr in ("reverse", "const_grid") or (tr in ("split", "common_list", "substrate", "freq_subset", "freq_perm", "scale") and rng.random() < 0.4)
        nl = rng.choice([1, 2, 3])
        grid = [1, 1] if uni else rng.choice([[5, 6], [7, 7], [8, 5], [6, 9], [1, 16], [16, 1]])
        a, b = rnd(rng, 0.2, 1.0), rnd(rng, 0.2, 1.0)
        if grid[0] == 1 and grid[1] > 1:
            a = 0.03
        if grid[1] == 1 and grid[0] > 1:
            b = 0.03
        L = [[a, 0.0], [0.0, b]]
        if tr == "shift" and rng.random() < 0.4 and min(grid) > 1:
            L = [[a, 0.2 * a], [-0.15 * b, b]]
        out.append(
            dict(
                s=seed(rng), tr=tr, nl=nl, grid=grid, L=L, ng=rng.choice([5, 9, 11]), nf=rng.choice([2, 3, 4]) if "freq" in tr else rng.choice([1, 2]),
                kind=rng.choice(["dielectric", "lossy", "mixed", "near_air"]), pat=rng.choice(["pixels", "bars", "disk", "mixed"]),
                thick=[rnd(rng, 0.02, 0.7) for _ in range(1 if tr == "common_list" else nl)],
                top=rng.choice([1.0, rnd(rng, 1, 4)]), bot=rng.choice([1.0, rnd(rng, 1, 9)]),
                wl=[rnd(rng, 0.5, 1.5), rnd(rng, 1.6, 6)],
            )
        )
    return out


def sim(e, th, L, case, f, top=None, bot=None, validate=True):
    import nidn, torch

    c = cfg(
        Nx=e.shape[0], Ny=e.shape[1], N_layers=e.shape[2], N_freq=e.shape[3], PER_LAYER_THICKNESS=list(map(float, th)),
        TRCWA_TOP_LAYER_EPS=case["top"] if top is None else top, TRCWA_BOTTOM_LAYER_EPS=case["bot"] if bot is None else bot,
        TRCWA_NG=case["ng"], TRCWA_L_grid=[list(x) for x in L],
    )
    c.target_frequencies = np.array(f)
    R, T = nidn.compute_spectrum(torch.tensor(e), c, validate_cfg=validate)
    return np.array(nums(R)), np.array(nums(T))


def run(case):
    g = gen(case)
    L = case["L"]
    G, _, _ = gset(case["ng"], *L)
    for ax, N in ((0, case["grid"][0]), (1, case["grid"][1])):
        v = [p[ax] for p in G]
        if N > 1 and max(v) - min(v) >= N or (N == 1 and max(case["grid"]) > 1 and max(v) > 0):
            raise Skip("grid does not resolve the orders")
    nl, nf = case["nl"], case["nf"]
    fs = np.linspace(1 / case["wl"][1], 1 / case["wl"][0], nf) if nf > 1 else np.array([1 / case["wl"][1]])
    e = pattern(g, case) if max(case["grid"]) > 1 else eps_values(g, case["kind"] if case["kind"] != "near_air" else "dielectric", (1, 1, nl, nf))
    th = np.array(case["thick"])
    full = np.repeat(th, nl) if len(th) == 1 else th
    R, T = sim(e, th, L, case, fs)
    Rp, Tp = sim(e * (1 + 1e-9), th, L, case, fs)
    cond = max(np.abs(R - Rp).max(), np.abs(T - Tp).max())
    if not cond < 1e-5:
        raise Skip("ill-conditioned structure")
    tolR = tolT = 1e-6 + 20 * cond
    tr = case["tr"]
    e2, th2, f2, L2, top, bot = e, th, fs, L, None, None
    sel = np.arange(nf)
    cmpR = True
    if tr == "shift":
        e2 = np.roll(e, (int(g.integers(0, e.shape[0])), int(g.integers(0, e.shape[1]))), (0, 1))
    elif tr == "mirror_x":
        e2 = e[::-1].copy()
    elif tr == "mirror_y":
        e2 = e[:, ::-1].copy()
    elif tr == "split":
        k = int(g.integers(nl))
        parts = int(g.integers(2, 4))
        w = g.dirichlet(np.ones(parts) * 5)
        idx = [i for i in range(nl) for _ in range(parts if i == k else 1)]
        e2 = e[:, :, idx]
        th2 = np.array([x for i in range(nl) for x in (full[i] * w if i == k else [full[i]])])
    elif tr == "common_list":
        th2 = full
    elif tr == "substrate":
        n = int(g.integers(1, 3))
        add = g.uniform(0.05, 1.5, n)
        e2 = np.concatenate([e, np.full(e.shape[:2] + (n, nf), case["bot"], complex)], 2)
        th2 = np.concatenate([full, add])
        tolT += 3 * 2 * np.pi * fs.max() * np.sqrt(case["bot"]) * add.sum() / 1e5
        tolR += 1e-6
        if max(case["grid"]) > 1:  # grazing orders decay slowly in the substrate and still carry power
            tolT += 1e-4
            if any(abs(case["bot"] * f * f - s) < 0.05 * f * f for f in fs for s in shells(G, L)):
                raise Skip("order near grazing")
    elif tr == "freq_subset":
        sel = np.sort(g.choice(nf, int(g.integers(1, nf)), replace=False))
        e2, f2 = e[..., sel], fs[sel]
    elif tr == "freq_perm":
        sel = g.permutation(nf)
        e2, f2 = e[..., sel], fs[sel]
    elif tr == "scale":
        s = 2.0 ** int(g.integers(1, 3)) if g.random() < 0.5 else 0.5
        th2, L2, f2 = th * s, [[x * s for x in r] for r in L], fs / s
        # the cover of fixed thickness 1 is not scaled: relaxation loss
        d = 2 * 2 * np.pi * fs.max() * np.sqrt(case["top"]) * max(s, 1 / s) * 2 / 1e5
        tolR += d
        tolT += d
    elif tr == "reverse":
        e2, th2, top, bot, cmpR = e[:, :, ::-1].copy(), full[::-1].copy(), case["bot"], case["top"], False
        tolT += 2 * 2 * np.pi * fs.max() * (np.sqrt(case["top"]) + np.sqrt(case["bot"])) * 2 / 1e5
    elif tr == "const_grid":
        n = [6, 7]
        e2 = np.tile(e, (n[0], n[1], 1, 1))
        case = dict(case, ng=5)
        L2 = [[0.21, 0.0], [0.0, 0.23]]
        tolR += 1e-5
        tolT += 1e-5
    R2, T2 = sim(e2, th2, L2, case, f2, top, bot)
    o = Obs()
    dR, dT = np.abs(R2 - R[sel]).max(), np.abs(T2 - T[sel]).max()
    require(
        (not cmpR or dR <= tolR) and dT <= tolT and np.all(np.isfinite(R2)),
        f"{tr}: spectra differ by {dR:.3e} (R), {dT:.3e} (T): {R[sel]} {T[sel]} vs {R2} {T2}; tolerance {tolR:.1e} {tolT:.1e}",
    )
    o.add("pairs compared", len(sel))
    o.add("transformation " + tr)
    o.peak("error/tolerance", max(dR / tolR if cmpR else 0, dT / tolT))
    o.nontrivial = e2.shape != e.shape or not np.array_equal(e2, e) or len(th2) != len(th) or not np.array_equal(th2, th)
    o.sample = {"R": R.tolist(), "R2": R2.tolist()}
    return o


def shells(G, L):
    d = L[0][0] * L[1][1] - L[0][1] * L[1][0]
    k1 = np.array([L[1][1] / d, -L[1][0] / d])
    k2 = np.array([-L[0][1] / d, L[0][0] / d])
    return [float(np.sum((g[0] * k1 + g[1] * k2) ** 2)) for g in G]
