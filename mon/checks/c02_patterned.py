"""C02: TRCWA spectra of patterned layers against an independent Fourier-modal solution."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.util import *
from mon.ref.optics import rcwa, gset

PROPERTY = "C02"
RULE = (
    "Random stacks of 1-11 patterned layers (random pixels, bars, disks, mixed with constant layers; layers that are shifted, mirrored, permuted, averaged or identical copies of the layer before) on grids 1x2, 2x1, 2x2 to 12x12 (some up to 101x37) incl. 3xN, "
    "1xN and Nx1 line gratings, square/rectangular/oblique lattices, truncation orders 2-25 (some up to 49), dielectric and lossy/metallic inclusions, "
    "cover/substrate media, 1-3 frequencies with own patterns; every R and T compared with an independent E-field RCWA "
    "(plain-sum Fourier coefficients, vacuum-gap scattering matrices). Non-trivial: removing the pattern (layer average) changes the reference R or T by > 1e-4; distinct by case."
)
ASSUMPTIONS = [
    "tolerance = 2e-6 + 5 x (change of the reference under relative changes of 4e-7 of frequency and 1e-9 of eps); ill-conditioned cases (tolerance > 1e-2) are not judged",
    "grids whose size is below the largest order difference are outside the domain",
]
BUDGET = {"quick": 30, "thorough": 800}
REQUIRED = {"values compared": 60}


def cases(rng, tier):
    n = 220 if tier == "quick" else 6000
    out = []
    for i in range(n):
        shape = rng.choice(["square", "rect", "oblique", "line_y", "line_x", "small3"])
        ng = rng.choice([2, 5, 9, 10, 11, 13, 16, 21, 25])
        if shape == "line_y":
            grid = [1, rng.choice([9, 12, 20, 33])]
            L = [[0.03, 0.0], [0.0, rnd(rng, 0.3, 1.1)]]
            ng = min(ng, 9)
        elif shape == "line_x":
            grid = [rng.choice([9, 12, 20, 33]), 1]
            L = [[rnd(rng, 0.3, 1.1), 0.0], [0.0, 0.03]]
            ng = min(ng, 9)
        elif shape == "small3":
            grid = rng.choice([[3, 3], [3, 4], [4, 3], [3, 7], [5, 3]])
            a = rnd(rng, 0.3, 1.0)
            L = [[a, 0.0], [0.0, a]]
            ng = rng.choice([2, 5, 6, 9])
        else:
            grid = [rng.choice([5, 6, 7, 8, 9, 12]), rng.choice([5, 6, 7, 8, 9, 12])]
            a, b = rnd(rng, 0.2, 1.1), rnd(rng, 0.2, 1.1)
            if shape == "square":
                b = a
            L = [[a, 0.0], [0.0, b]]
            if shape == "oblique":
                L = [[a, rnd(rng, -0.3, 0.3) * a], [rnd(rng, -0.4, 0.4) * b, b]]
        nl = rng.choice([1, 1, 2, 3, 4])
        out.append(
            dict(
                s=seed(rng), shape=shape, grid=grid, L=L, ng=ng, nl=nl, nf=rng.choice([1, 1, 2, 3]),
                kind=rng.choice(["dielectric", "lossy", "mixed", "metal", "near_air"]),
                pat=rng.choice(["pixels", "pixels", "bars", "disk", "mixed", "related", "related"] if nl > 1 else ["pixels", "pixels", "bars", "disk", "mixed"]),
                thick=[rnd(rng, 0.01, 0.8) for _ in range(rng.choice([1, nl]))],
                top=rng.choice([1.0, 1.0, rnd(rng, 1, 4)]), bot=rng.choice([1.0, 1.0, rnd(rng, 1, 9)]),
                wl=[rnd(rng, 0.5, 1.5), rnd(rng, 1.6, 6)],
            )
        )
    for i in range(12 if tier == "quick" else 300):  # many layers
        a, nl = rnd(rng, 0.3, 0.9), rng.choice([5, 6, 8, 11])
        out.insert(i * 5, dict(s=seed(rng), shape="square", grid=[rng.choice([5, 6]), rng.choice([5, 7])], L=[[a, 0.0], [0.0, a]], ng=rng.choice([5, 6, 9]), nl=nl, nf=rng.choice([1, 2]), kind=rng.choice(["dielectric", "lossy", "mixed"]), pat=rng.choice(["pixels", "related"]),
                        thick=[rnd(rng, 0.01, 0.3) for _ in range(rng.choice([1, nl]))], top=1.0, bot=rng.choice([1.0, 2.2]), wl=[rnd(rng, 0.5, 1.5), rnd(rng, 1.6, 6)]))
    for i in range(24 if tier == "quick" else 400):  # far from everyday settings
        a, nl = rng.choice([rnd(rng, 0.02, 0.3), rnd(rng, 1.2, 3)]), rng.choice([1, 2])
        b = rng.choice([a, a * rnd(rng, 0.3, 2)])
        out.insert(i * 7, dict(s=seed(rng), shape="far", grid=rng.choice([[40, 30], [64, 64], [101, 37], [13, 13], [20, 16]]), L=[[a, 0.0], [0.0, b]], ng=rng.choice([5, 9, 13, 37, 49]), nl=nl, nf=rng.choice([1, 1, 7]), kind=rng.choice(["dielectric", "lossy", "mixed"]),
                               pat=rng.choice(["pixels", "disk", "bars"]), faint=rng.choice([0, 0, 1e-2, 1e-3]), thick=[rng.choice([rnd(rng, 1e-3, 0.01), rnd(rng, 0.1, 1), rnd(rng, 1, 4)]) for _ in range(rng.choice([1, nl]))],
                               top=rng.choice([1.0, rnd(rng, 1, 9)]), bot=rng.choice([1.0, rnd(rng, 1, 16)]), wl=[rnd(rng, 0.3, 1.5), rnd(rng, 1.6, 20)]))
    for i in range(14 if tier == "quick" else 200):  # the smallest grids, few orders
        grid = [[2, 1], [1, 2], [2, 2], [2, 3], [3, 1], [1, 3], [2, 9]][i % 7]
        L = [[rnd(rng, 0.3, 0.9) if grid[0] > 1 else 0.03, 0.0], [0.0, rnd(rng, 0.3, 0.9) if grid[1] > 1 else 0.03]]
        nl = rng.choice([1, 2, 3])
        out.insert(i * 6, dict(s=seed(rng), shape="tiny", grid=grid, L=L, ng=rng.choice([1, 3]) if grid in ([3, 1], [1, 3]) else 1, nl=nl, nf=rng.choice([1, 2]), kind=rng.choice(["dielectric", "lossy", "mixed"]), pat="pixels",
                               thick=[rnd(rng, 0.01, 0.8) for _ in range(rng.choice([1, nl]))], top=1.0, bot=rng.choice([1.0, 2.2]), wl=[rnd(rng, 0.5, 1.5), rnd(rng, 1.6, 6)]))
    return out


def pattern(g, case):
    Nx, Ny = case["grid"]
    nl, nf = case["nl"], case["nf"]
    kind = case["kind"]
    if kind == "near_air":
        a = np.ones((nl, nf)) + 0j
        b = g.uniform(1.2, 4, (nl, nf)) + 0j
    elif kind in ("metal", "mixed"):
        a = g.uniform(1, 4, (nl, nf)) + 0j
        b = g.uniform(-15, 12, (nl, nf)) + 1j * g.uniform(0.3, 4, (nl, nf))
    else:
        a = eps_values(g, kind, (nl, nf))
        b = eps_values(g, kind, (nl, nf))
    if case.get("faint"):
        b = a * (1 + case["faint"])
    e = np.zeros((Nx, Ny, nl, nf), complex)
    x = (np.arange(Nx) + 0.5) / Nx
    y = (np.arange(Ny) + 0.5) / Ny
    for l in range(nl):
        p = case["pat"]
        if p == "related":  # layers that share mean, extremes, rows or columns with the layer before, or all of it
            if l:
                b4 = e[:, :, l - 1]
                sh = [int(g.integers(Nx)), int(g.integers(Ny))]
                t = int(g.integers(7))
                if t == 0:
                    e[:, :, l] = np.roll(b4, sh, (0, 1))
                elif t == 1:
                    e[:, :, l] = b4[::-1]
                elif t == 2:
                    e[:, :, l] = b4[:, ::-1]
                elif t == 3:
                    e[:, :, l] = g.permutation(b4.reshape(Nx * Ny, nf)).reshape(Nx, Ny, nf)
                elif t == 4:
                    e[:, :, l] = b4 if Nx != Ny else b4.transpose(1, 0, 2)
                elif t == 5:
                    e[:, :, l] = b4
                else:
                    e[:, :, l] = b4.mean((0, 1))
                continue
            p = ["pixels", "bars", "disk"][g.integers(3)]
        if p == "mixed":
            p = ["pixels", "bars", "disk", "const"][g.integers(4)]
        if p == "pixels":
            w = g.random((Nx, Ny))
        elif p == "bars":
            w = np.zeros((Nx, Ny))
            if Ny > 1 and (Nx == 1 or g.random() < 0.5):
                k = g.integers(1, Ny)
                w[:, :k] = 1
            else:
                w[: g.integers(1, max(Nx, 2)), :] = 1
        elif p == "disk":
            cx, cy, r = g.random(), g.random(), g.uniform(0.15, 0.45)
            w = (((x[:, None] - cx) ** 2 + (y[None] - cy) ** 2) < r * r).astype(float)
        else:
            w = np.zeros((Nx, Ny))
        for f in range(nf):
            e[:, :, l, f] = a[l, f] * (1 - w) + b[l, f] * w
            if not case.get("faint") and g.random() < 0.3:  # this frequency has an individually perturbed pattern
                e[:, :, l, f] *= 1 + 0.1 * g.random((Nx, Ny))
    return e


def reference(f, layers, th, c, o=None):
    args = (th, c.TRCWA_L_grid[0], c.TRCWA_L_grid[1], c.TRCWA_NG, c.TRCWA_TOP_LAYER_EPS, c.TRCWA_BOTTOM_LAYER_EPS)
    r, t = rcwa(f, layers, *args)
    d = 0.0
    for s in (1 - 4e-7, 1 + 4e-7):
        a, b = rcwa(f, layers, *args, omega_scale=s)
        d = max(d, abs(a - r), abs(b - t))
    a, b = rcwa(f, [x * (1 + 1e-9) for x in layers], *args)
    d = max(d, abs(a - r), abs(b - t))
    return r, t, 2e-6 + 5 * d


def run(case):
    import nidn, torch

    g = gen(case)
    nl, nf = case["nl"], case["nf"]
    Nx, Ny = case["grid"]
    G, _, _ = gset(case["ng"], *case["L"])
    for ax, N in ((0, Nx), (1, Ny)):
        v = [p[ax] for p in G]
        if max(v) - min(v) >= N:
            raise Skip("grid does not resolve the orders")
    c = cfg(
        Nx=Nx, Ny=Ny, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=list(case["thick"]), TRCWA_TOP_LAYER_EPS=case["top"],
        TRCWA_BOTTOM_LAYER_EPS=case["bot"], physical_wavelength_range=[w * 1e-6 for w in case["wl"]],
        TRCWA_NG=case["ng"], TRCWA_L_grid=[list(x) for x in case["L"]],
    )
    f = freqs(c)
    e = pattern(g, case)
    th = case["thick"] * nl if len(case["thick"]) == 1 else case["thick"]
    R, T = nidn.compute_spectrum(torch.tensor(e), c)
    require(len(R) == nf and len(T) == nf, f"{len(R)} / {len(T)} values for {nf} frequencies")
    R, T = nums(R), nums(T)
    o = Obs()
    o.nontrivial = False
    for i in range(nf):
        layers = [e[:, :, l, i] for l in range(nl)]
        r, t, tol = reference(f[i], layers, th, c)
        if not tol < 1e-2:
            o.add("ill-conditioned, not judged")
            continue
        require(
            abs(R[i] - r) <= tol and abs(T[i] - t) <= tol,
            f"frequency {i} ({f[i]:.6f}): code R={R[i]:.9f} T={T[i]:.9f}, Fourier-modal reference R={r:.9f} T={t:.9f} (tol {tol:.1e})",
        )
        o.add("values compared", 2)
        o.peak("error/tolerance", max(abs(R[i] - r), abs(T[i] - t)) / tol)
        a, b = rcwa(f[i], [complex(x.mean()) for x in layers], th, c.TRCWA_L_grid[0], c.TRCWA_L_grid[1], 1, case["top"], case["bot"])
        if max(abs(a - r), abs(b - t)) > 1e-4:
            o.nontrivial = True
    o.seen("grid", f"{Nx}x{Ny}")
    o.seen("lattice/order", f"{case['shape']}/{len(G)}")
    o.sample = {"R": R, "T": T, "orders": len(G)}
    return o
