"""C05: spectra are differentiable with correct gradients."""
import numpy as np
from mon.core import Obs, Violation, require, Skip
from mon.util import *
from mon.checks import c02_patterned
from mon.ref.optics import gset
from mon import fdtdcase

PROPERTY = "C05"
RULE = (
    "Random uniform and patterned TRCWA stacks and small FDTD stacks (line and point source, all signals). For every frequency and for R and T the autograd gradient with respect to the permittivity grid is recorded and its product with random "
    "directions of change (single grid point, single layer, everything; real and imaginary) compared with symmetric differences of the returned values at two step sizes. Monitored too: gradients are finite, and zero with respect to other frequencies. "
    "Non-trivial: a derivative > 1e-6 was confirmed; distinct by case."
)
ASSUMPTIONS = [
    "judged where the symmetric differences at two step sizes agree with each other (to 1e-2, tolerance 5 x their difference + 1e-4 relative)",
    "FDTD: judged where the settling decisions are the same at both displaced points (the differences agree)",
]
BUDGET = {"quick": 40, "thorough": 800}
MIN_CASES = {"thorough": 200}
REQUIRED = {"TRCWA derivatives": 150, "patterned derivatives": 60, "FDTD derivatives": 16, "cross-frequency gradients": 60}


def cases(rng, tier):
    out = []
    pat = [p for p in c02_patterned.cases(rng, "quick") if p["ng"] >= 9 and p["pat"] == "pixels" and p["shape"] in ("square", "rect", "oblique") and p["kind"] != "near_air"]
    n = 118 if tier == "quick" else 4000
    for i in range(n):
        if i < 14 or i % 20 == 19 and tier != "quick":
            d = fdtdcase.draw(rng, pulse=["continuous", "continuous", "ricker", "hanning"][i % 4], nf=2 if i == 1 else 1, nl=rng.choice([1, 2]), minpts=rng.choice([6, 8, 10]))
            d.update(w="fdtd", niter=80 if i == 1 else rng.choice([80, 100, 120]))
            out.append(d)
        elif i % 2:
            p = dict(rng.choice(pat), w="pat", s=seed(rng))
            p["nf"] = rng.choice([1, 2])
            p["nl"] = rng.choice([1, 2])
            p["thick"] = [rnd(rng, 0.02, 0.6) for _ in range(p["nl"])]
            p["pat"] = "random"
            out.append(p)
        else:
            nl = rng.choice([1, 2, 4])
            out.append(dict(w="uni", s=seed(rng), nl=nl, nf=rng.choice([1, 2, 3]), kind=rng.choice(["dielectric", "lossy", "metal", "mixed"]), thick=[rnd(rng, 0.02, 1.0) for _ in range(rng.choice([1, nl]))],
                            top=rng.choice([1.0, rnd(rng, 1, 4)]), bot=rng.choice([1.0, rnd(rng, 1, 9)]), wl=[rnd(rng, 0.5, 1.5), rnd(rng, 1.6, 6)], ng=11, L=[[0.1, 0.0], [0.0, 0.1]]))
    for i in range(8 if tier == "quick" else 200):  # many layers or frequencies, thick and thin layers, gain
        nl = rng.choice([8, 14, 1])
        out.insert(i * 11, dict(w="uni", s=seed(rng), nl=nl, nf=rng.choice([1, 7]) if nl < 14 else 1, kind=rng.choice(["dielectric", "lossy", "mixed", "gain"]), thick=[rng.choice([10 ** rnd(rng, -3, 0.3)]) for _ in range(rng.choice([1, nl]))],
                                top=rng.choice([1.0, rnd(rng, 4, 9)]), bot=rng.choice([1.0, rnd(rng, 9, 16)]), wl=[rnd(rng, 0.1, 1.5), rnd(rng, 1.6, 30)], ng=rng.choice([1, 11]), L=[[0.1, 0.0], [0.0, 0.1]]))
    # patterned layers whose modes coincide
    for kind in ("constant pattern", "single order"):
        out.append(dict(w="degenerate", kind=kind, s=11))
    if tier != "quick":
        out = out[-2:] + out[:-2]
    return out


def setup(d):
    """permittivity grid and function eps -> (R, T)"""
    import nidn, torch

    g = gen(d)
    if d["w"] == "fdtd":
        e = fdtdcase.perm(d)[None, None]
        e = e + 0.02  # keep the material different from free space
        return e, lambda t: nidn.compute_spectrum(t, fdtdcase.config(d))
    nl, nf = d["nl"], d["nf"]
    if d["w"] == "uni":
        Nx = Ny = 1
        e = eps_values(g, d["kind"], (1, 1, nl, nf))
    else:
        Nx, Ny = d["grid"]
        G, _, _ = gset(d["ng"], *d["L"])
        for ax, N in ((0, Nx), (1, Ny)):
            v = [p[ax] for p in G]
            if max(v) - min(v) >= N:
                raise Skip("grid does not resolve the orders")
        if len(G) < 5:
            raise Skip("too few orders")
        lo, hi = (1.2, 8) if d["kind"] in ("dielectric", "lossy") else (-8, 10)
        e = g.uniform(lo, hi, (Nx, Ny, nl, nf)) + 1j * (g.uniform(0.05, 2, (Nx, Ny, nl, nf)) if d["kind"] != "dielectric" else 0)
    c = cfg(Nx=Nx, Ny=Ny, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=list(d["thick"]), TRCWA_TOP_LAYER_EPS=d["top"], TRCWA_BOTTOM_LAYER_EPS=d["bot"],
            physical_wavelength_range=[w * 1e-6 for w in d["wl"]], TRCWA_NG=d["ng"], TRCWA_L_grid=[list(x) for x in d["L"]])
    freqs(c)
    return e, lambda t: nidn.compute_spectrum(t, c)


def directions(g, e, per):
    """random directions of change, at one frequency each"""
    Nx, Ny, nl, nf = e.shape
    out = []
    for i in range(nf):
        for part in ("real", "imag", "complex")[: 3 if per else 2]:
            for _ in range(max(per, 1)):
                v = np.zeros(e.shape, complex)
                l = int(g.integers(nl))
                what = g.choice(["point", "layer", "all"])
                if what == "point":
                    v[g.integers(Nx), g.integers(Ny), l, i] = 1
                elif what == "layer":
                    v[:, :, l, i] = g.normal(size=(Nx, Ny))
                else:
                    v[:, :, :, i] = g.normal(size=(Nx, Ny, nl))
                if part == "imag":
                    v = 1j * v
                elif part == "complex":
                    v = v * np.exp(1j * g.uniform(0, 6.28))
                out.append((i, what + "/" + part, v))
    return out


def run(d):
    import torch

    if d["w"] == "degenerate":
        return run_degenerate(d)
    g = np.random.default_rng(d["s"] + 1)
    e, f = setup(d)
    o = Obs()
    o.nontrivial = False
    t = torch.tensor(e, requires_grad=True)
    R, T = f(t)
    nf = e.shape[3]
    grads = {}
    for nm, q in (("R", R), ("T", T)):
        for i in range(nf):
            v = q[i]
            require(torch.is_tensor(v) and v.requires_grad, f"{nm} at frequency {i} does not depend differentiably on the permittivities")
            (gr,) = torch.autograd.grad(v, t, retain_graph=True, allow_unused=True)
            require(gr is not None, f"{nm} at frequency {i} has no gradient with respect to the permittivity grid")
            gr = gr.detach().numpy()
            require(np.all(np.isfinite(gr)), f"non-finite gradient of {nm} at frequency {i} ({np.sum(~np.isfinite(gr))} of {gr.size} entries)")
            for j in range(nf):
                if j != i:
                    require(np.all(gr[..., j] == 0), f"{nm} at frequency {i} has a gradient with respect to the permittivity at frequency {j}")
                    o.add("cross-frequency gradients")
            grads[nm, i] = gr

    def val(x, i):
        with torch.no_grad():
            a, b = f(torch.tensor(x))
        return {"R": num(a[i]), "T": num(b[i])}

    per = {"uni": 2, "pat": 1, "fdtd": 0}[d["w"]]
    hs = (1e-5, 3e-5) if d["w"] != "fdtd" else (1e-4, 3e-4)
    for i, what, v in directions(g, e, per):
        v = v / np.abs(v).max()
        if d["w"] == "fdtd" and np.any((e + v * hs[1]).imag < 0):
            v = v.real + 1j * np.abs(v.imag)
        dif = []
        ok = True
        for h in hs:
            if d["w"] == "fdtd" and np.any((e.imag == 0) & (v.imag != 0)):
                # one-sided at the edge of the lossless range
                a0, a1, a2 = val(e, i), val(e + h * v, i), val(e + 2 * h * v, i)
                dif.append({k: (4 * a1[k] - 3 * a0[k] - a2[k]) / (2 * h) for k in a0})
            else:
                a, b = val(e + h * v, i), val(e - h * v, i)
                dif.append({k: (a[k] - b[k]) / (2 * h) for k in a})
        for nm in ("R", "T"):
            x, y = dif[0][nm], dif[1][nm]
            sc = max(abs(x), abs(y))
            tol = 5 * abs(x - y) + 1e-4 * sc + (2e-7 if d["w"] != "fdtd" else 1e-5)
            if not np.isfinite(x) or abs(x - y) > 1e-2 * sc + 1e-6:
                o.add("not smooth here, not judged")
                continue
            got = float(np.sum(grads[nm, i].real * v.real + grads[nm, i].imag * v.imag))
            require(abs(got - x) <= tol, f"{d['w']}: d{nm}/d eps at frequency {i} in direction {what}: back-propagation {got:.8g}, actual rate of change {x:.8g} (+- {tol:.1g})")
            o.add({"uni": "TRCWA derivatives", "pat": "patterned derivatives", "fdtd": "FDTD derivatives"}[d["w"]])
            o.seen("direction", d["w"] + " " + what)
            o.peak("deviation/tolerance", abs(got - x) / tol)
            if abs(x) > 1e-6:
                o.nontrivial = True
    o.sample = {"shape": list(e.shape), "R": nums(R), "T": nums(T)}
    return o


def run_degenerate(d):
    """a grid-described constant pattern, and a truncation to a single order: equal modes"""
    import nidn, torch

    N, ng = (4, 9) if d["kind"] == "constant pattern" else (4, 1)
    g = gen(d)
    e = np.full((N, N, 1, 1), 4.0 + 0.1j) if d["kind"] == "constant pattern" else g.uniform(2, 6, (N, N, 1, 1)) + 0.1j
    c = cfg(Nx=N, Ny=N, N_layers=1, N_freq=1, PER_LAYER_THICKNESS=[0.3], physical_wavelength_range=[1e-6, 2e-6], TRCWA_NG=ng, TRCWA_L_grid=[[0.3, 0.0], [0.0, 0.3]])
    freqs(c)
    t = torch.tensor(e, requires_grad=True)
    try:
        R, T = nidn.compute_spectrum(t, c)
        (gr,) = torch.autograd.grad(R[0], t)
    except RuntimeError as ex:
        if "egenerate" in str(ex) or "eig" in str(ex):
            raise Violation(f"no gradient for a patterned layer with equal modes ({d['kind']}): {ex}", key="degenerate-modes:" + d["kind"])
        raise
    gr = gr.numpy()
    if not np.all(np.isfinite(gr)):
        raise Violation(f"non-finite gradient for a patterned layer with equal modes ({d['kind']})", key="degenerate-modes:" + d["kind"])
    o = Obs()
    o.nontrivial = False
    o.add("degenerate cases with a finite gradient")
    return o
