"""Random structures for the RCWA class itself (any direction of incidence, polarisation, lattice)."""
import numpy as np
from mon.util import *
from mon.ref.optics import gset


def draw(rng, i, lossless_media=True, small=False):
    kind = ["uniform", "patterned", "patterned", "mixed", "aniso", "uniform"][i % 6]
    a, b = rnd(rng, 0.3, 1.3), rnd(rng, 0.3, 1.3)
    sh = rng.choice(["square", "rect", "oblique"])
    b = a if sh == "square" else b
    L = [[a, 0.0], [0.0, b]] if sh != "oblique" else [[a, round(rnd(rng, -0.3, 0.3) * a, 4)], [round(rnd(rng, -0.4, 0.4) * b, 4), b]]
    ng = rng.choice([1, 5, 9, 11, 13] if small else [1, 2, 5, 9, 11, 13, 21])
    G = gset(ng, *L)[0] + [(i, j) for i in (-2, 2) for j in (-2, 2)]
    need = [max(x[k] for x in G) - min(x[k] for x in G) + 1 for k in (0, 1)]
    return dict(
        s=seed(rng), kind=kind, L=L, shape=sh, ng=ng, nl=rng.choice([1, 2, 3]),
        grids=[[max(need[0], rng.choice([5, 6, 7, 8, 11])), max(need[1], rng.choice([5, 6, 7, 9, 12]))] for _ in range(3)], mat=rng.choice(["dielectric", "lossy", "metal", "mixed"]),
        freq=rnd(rng, 0.3, 1.6), theta=rng.choice([0.0, rnd(rng, 0.02, 1.4), rnd(rng, 0.02, 1.4)]), phi=rng.choice([0.0, rnd(rng, 0, 6.2), rnd(rng, 0, 6.2)]),
        top=rng.choice([1.0, rnd(rng, 1.0, 6)]), bot=rng.choice([1.0, rnd(rng, 1.0, 6)]),
        s_amp=[rnd(rng, 0, 1), rnd(rng, 0, 6.2)], p_amp=[rnd(rng, 0, 1), rnd(rng, 0, 6.2)], pol=rng.choice(["s", "p", "both", "both"]),
        scale=rng.choice([1.0, 1.0, 1.0, rnd(rng, 0.6, 1.6)]), history=rng.choice([0, 0, 1, 2, 3]),
        outer=[rng.choice([1.0, 0.0, rnd(rng, 0.01, 2)]), rng.choice([1.0, 0.0, rnd(rng, 0.01, 2)])],
        weak=rng.choice([0, 0, 0, 0, 1e-2, 1e-3, 1e-4]),
    )


def amps(d):
    """(s, p) moduli and phases"""
    s, p = list(d["s_amp"]), list(d["p_amp"])
    if d["pol"] == "s":
        s[0], p[0] = 1.0, 0.0
    elif d["pol"] == "p":
        s[0], p[0] = 0.0, 1.0
    return s, p


def structure(d):
    """layers (complex scalars, arrays or triples of arrays) and thicknesses"""
    g = gen(d)
    out = []
    kinds = [d["kind"]] * d["nl"]
    if d["kind"] == "mixed":
        kinds = [["uniform", "patterned"][g.integers(2)] for _ in kinds]
        kinds[g.integers(len(kinds))] = "patterned"

    def pat(i):
        shape = tuple(d["grids"][i])
        lo = eps_values(g, d["mat"], (2,))
        if d["mat"] == "metal":
            lo[0] = g.uniform(1, 4)
        lo = np.where(abs(lo) > 12, lo * 12 / abs(lo), lo)
        if d.get("weak"):  # faint patterns
            lo[1] = lo[0] * (1 + d["weak"])
        w = g.random(shape) if g.random() < 0.6 else (g.random(shape) < 0.5).astype(float)
        return lo[0] * (1 - w) + lo[1] * w

    for i, k in enumerate(kinds):
        if k == "uniform":
            out.append(complex(eps_values(g, d["mat"], ())))
        elif k == "patterned":
            out.append(pat(i))
        else:
            out.append((pat(i), pat(i), pat(i)))
    return out, [round(float(x), 4) for x in g.uniform(0.03, 0.6, len(out))], g


def build(d, layers, thick, bot=None, direction="forward", gmethod=0, freq=None, excite=True):
    """The RCWA object of the code under test, ready to be asked."""
    import torch
    TRCWA = internal("nidn.trcwa.trcwa", "TRCWA")

    o = TRCWA(d["ng"], [list(x) for x in d["L"]][0], [list(x) for x in d["L"]][1], freq or d["freq"], d["theta"], d["phi"], verbose=0)
    above, below = d.get("outer", [1.0, 1.0])
    o.Add_LayerUniform(above, torch.tensor(d["top"]))
    pats = []
    for e, t in zip(layers, thick):
        if not isinstance(e, tuple) and np.ndim(e) == 0:
            o.Add_LayerUniform(t, torch.tensor(complex(e)))
        else:
            o.Add_LayerGrid(t, *np.shape(e)[-2:])
            pats.append(e)
    o.Add_LayerUniform(below, torch.tensor(d["bot"] if bot is None else bot))
    o.Init_Setup(Pscale=d["scale"], Gmethod=gmethod)
    s, p = amps(d)

    def excite(s, p, direction):
        o.MakeExcitationPlanewave(p[0], p[1], s[0], s[1], order=d.get("order", 0) % o.nG, direction=direction)

    def pattern(f):
        if any(isinstance(x, tuple) for x in pats):
            full = [x if isinstance(x, tuple) else (x, x, x) for x in pats]
            o.GridLayer_geteps([torch.tensor(f(np.concatenate([x[k].ravel() for x in full])) + 0j) for k in range(3)])
        elif pats:
            o.GridLayer_geteps(torch.tensor(f(np.concatenate([x.ravel() for x in pats])) + 0j))

    # the object may have been asked about other light or other patterns before
    h = np.random.default_rng(d["s"] + 1)
    kind = d.get("history", 0)
    other = ([h.uniform(0.1, 1), h.uniform(0, 6)], [h.uniform(0.1, 1), h.uniform(0, 6)], ["forward", "backward"][h.integers(2)])
    if kind in (1, 3):
        excite(*other)
        pattern(lambda x: x)
        _ask(o, h)
    if kind in (2, 3):
        if kind == 2:
            excite(s, p, direction)
        pattern(lambda x: x[::-1].copy() * 1.1 if h.random() < 0.5 else np.ones_like(x) * 2.0 + x * 0.01)
        _ask(o, h)
    if kind != 2:
        excite(s, p, direction)
    if kind != 1:
        pattern(lambda x: x)
    if kind:
        _ask(o, h)  # asking twice changes nothing
    return o


def orders(o):
    return [tuple(int(v) for v in x) for x in o.G]


def _ask(o, h):
    o.RT_Solve(normalize=int(h.integers(2)), byorder=int(h.integers(2)))
    for l in range(o.Layer_N):
        if h.random() < 0.7:
            o.Solve_FieldFourier(l, 0.01)
        o.GetAmplitudes(l, 0.02) if h.random() < 0.4 else None
    l = int(h.integers(1, o.Layer_N - 1))
    import torch

    I = torch.eye(o.nG, dtype=torch.complex128)
    o.Volume_integral(l, I, 2 * I, I)
    o.Return_eps(l, 2 * o.nG + 2, 2 * o.nG + 2)
    o.Solve_ZStressTensorIntegral(l)
