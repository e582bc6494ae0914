"""C26: the RCWA class for any direction of incidence and polarisation, order by order."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.util import *
from mon.ref.optics import rcwa, gset
from mon import rcwacase as K

PROPERTY = "C26"
RULE = (
    "Random structures of 1-3 uniform, patterned, mixed or diagonally anisotropic layers on square, rectangular and oblique lattices (also scaled), polar angle 0-1.4, any azimuth, s, p and "
    "mixed complex polarisation, cover and substrate media (incl. total internal reflection), circular and parallelogram truncation, illuminated from the front and from the back, on fresh objects and on ones set up and asked differently before; "
    "the powers of every diffraction order and their totals compared with an independent E-field RCWA; order set against complete shells / the full square, also of skewed (9-171 degrees) and elongated lattices. "
    "Non-trivial: the result differs from normal incidence by > 1e-4; distinct by case."
)
ASSUMPTIONS = [
    "tolerance = 2e-6 x incident power + 5 x (change of the reference under relative changes of 4e-7 of frequency and 1e-9 of eps); above 1e-2 a case is not judged",
    "illumination from the back is judged for equal media on both sides",
]
BUDGET = {"quick": 25, "thorough": 600}
REQUIRED = {"orders compared": 200, "oblique": 20, "from the back": 5, "anisotropic": 5, "order sets of skewed lattices": 40}


def cases(rng, tier):
    n = 500 if tier == "quick" else 8000
    out = []
    for i in range(n):
        d = K.draw(rng, i)
        d["back"] = i % 4 == 1
        d["gmethod"] = int(i % 7 == 3)
        out.append(d)
    for i in range(110 if tier == "quick" else 1500):  # order sets of skewed and elongated lattices
        a, q, w = rnd(rng, 0.3, 2), rng.choice([1.0, 2.0, rnd(rng, 0.15, 6), rnd(rng, 6, 25), rnd(rng, 0.04, 0.15)]), rng.choice([90.0, 60.0, 30.0, rnd(rng, 9, 171), rnd(rng, 9, 40), rnd(rng, 140, 171)])
        t = rnd(rng, 0, 6.2)
        w = w * np.pi / 180
        out.append(dict(part="orders", s=seed(rng), ng=rng.choice([1, 2, 3, 4, 7, 12, 20, 41, rng.randrange(1, 130)]),
                        L=[[float(a * np.cos(t)), float(a * np.sin(t))], [float(a * q * np.cos(t + w)), float(a * q * np.sin(t + w))]]))
    return out


def run_orders(d):
    """the circular truncation holds all orders up to a radius: complete shells, fewer than asked for, and not a shell less than fits"""
    import torch, nidn
    from nidn.trcwa.trcwa import TRCWA

    ob = TRCWA(d["ng"], d["L"][0], d["L"][1], 0.8, 0.0, 0.0, verbose=0)
    for _ in range(2):
        ob.Add_LayerUniform(1.0, torch.tensor(1.0 + 0j))
    ob.Init_Setup()
    G = K.orders(ob)
    (a, b), (c, e) = d["L"]
    det = a * e - b * c
    k1, k2 = np.array([e, -c]) / det, np.array([-b, a]) / det
    M = 140
    i, j = np.meshgrid(np.arange(-M, M + 1), np.arange(-M, M + 1), indexing="ij")
    i, j = i.ravel(), j.ravel()
    n2 = (i * k1[0] + j * k2[0]) ** 2 + (i * k1[1] + j * k2[1]) ** 2
    ref = max(k1 @ k1, k2 @ k2)
    idx = np.argsort(n2, kind="stable")[: d["ng"] + 60]
    gap = np.diff(n2[idx]) / ref
    if np.any((gap > 3e-12) & (gap < 1e-8)):
        raise Skip("nearly equal shells")
    ends = [k + 1 for k in range(len(gap)) if gap[k] >= 1e-8 and k + 1 < d["ng"]]
    n = max([1] + ends)
    want = sorted(zip(i[idx[:n]].tolist(), j[idx[:n]].tolist()))
    if max(abs(x) for p in want for x in p) >= M:
        raise Skip("reference set too small")
    require(G[0] == (0, 0), f"the first order is {G[0]}")
    require(sorted(G) == want, f"lattice {d['L']}, {d['ng']} orders: {sorted(set(G) ^ set(want))[:6]} are wrongly in or missing ({len(G)} orders, expected {n})")
    o = Obs()
    o.add("order sets of skewed lattices")
    o.nontrivial = n > 1
    return o


def reference(d, layers, thick, bot, G):
    s, p = K.amps(d)
    L = [[x * d["scale"] for x in v] for v in d["L"]]
    ob = (d["theta"], d["phi"], s[0] * np.exp(1j * s[1]), p[0] * np.exp(1j * p[1]))

    def f(sc=1.0, fac=1.0):
        ls = [tuple(y * fac for y in x) if isinstance(x, tuple) else x * fac for x in layers]
        r, t, _ = rcwa(d["freq"], ls, thick, L[0], L[1], d["ng"], d["top"], bot, q_abs=1e300, omega_scale=sc, oblique=ob, G=G)
        return np.array([r, t])

    a = f()
    dev = max(np.abs(f(sc=1 - 4e-7) - a).max(), np.abs(f(sc=1 + 4e-7) - a).max(), np.abs(f(fac=1 + 1e-9) - a).max())
    inc = abs(ob[2]) ** 2 + abs(ob[3]) ** 2
    return a[0], a[1], 2e-6 * max(inc, 0.1) + 5 * dev, inc


def run(d):
    if d.get("part") == "orders":
        return run_orders(d)
    o = Obs()
    layers, thick, g = K.structure(d)
    bot = d["top"] if d["back"] else d["bot"]
    ob = K.build(d, layers, thick, bot=bot, direction="backward" if d["back"] else "forward", gmethod=d["gmethod"])
    G = K.orders(ob)
    L = d["L"]
    want, _, _ = gset(d["ng"], *L)
    if d["gmethod"] == 1:
        m = int(np.sqrt(d["ng"]))
        m = (m - 1 if m % 2 == 0 else m) // 2
        want = [(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)]
    require(G[0] == (0, 0), f"the first order is {G[0]}")
    require(sorted(G) == sorted(want), f"orders {sorted(G)} instead of {sorted(want)}")
    for ax in (0, 1):
        v = [x[ax] for x in G]
        if any(max(v) - min(v) >= np.shape(x)[-2:][ax] for x in layers if np.ndim(x if not isinstance(x, tuple) else x[0])):
            raise Skip("grid does not resolve the orders")
    R, T = ob.RT_Solve(normalize=1, byorder=1)
    R, T = np.asarray(R.detach()), np.asarray(T.detach())
    r, t, tol, inc = reference(d, layers[::-1] if d["back"] else layers, thick[::-1] if d["back"] else thick, bot, G)
    if not tol < 1e-2:
        raise Skip("ill-conditioned")
    e = max(np.abs(R - r).max(), np.abs(T - t).max()) if np.all(np.isfinite(R)) and np.all(np.isfinite(T)) else np.inf
    k = int(np.argmax(np.abs(R - r) + np.abs(T - t)))
    what = f"theta={d['theta']} phi={d['phi']} {d['pol']}{' from the back' if d['back'] else ''}"
    require(e <= tol, f"{what}, order {G[k]}: code R={R[k]:.8f} T={T[k]:.8f}, reference R={r[k]:.8f} T={t[k]:.8f} (tol {tol:.1e})")
    R1, T1 = [num(x) for x in ob.RT_Solve(normalize=1)]
    require(abs(R1 - R.sum()) <= 1e-9 + tol and abs(T1 - T.sum()) <= 1e-9 + tol, f"{what}: totals R={R1} T={T1} are not the sums over the orders {R.sum()} {T.sum()}")
    R2, T2 = [num(x) for x in ob.RT_Solve()]
    f = np.cos(d["theta"]) / np.sqrt(d["top"])
    require(abs(R2 - R1 * f) <= 1e-9 + tol and abs(T2 - T1 * f) <= 1e-9 + tol, f"{what}: unnormalised powers {R2} {T2}, expected {R1 * f} {T1 * f}")
    if all(not isinstance(x, tuple) and np.ndim(x) == 0 and x.imag == 0 for x in layers):
        require(abs(R1 + T1 - inc) < 1e-5 * max(inc, 1) + 2 * tol, f"{what}: lossless structure returns {R1 + T1} of {inc}")
        o.add("lossless balances")
    o.add("orders compared", 2 * len(G))
    o.peak("error/tolerance", e / tol)
    o.add("oblique", int(d["theta"] > 0))
    o.add("from the back", int(d["back"]))
    o.add("anisotropic", int(d["kind"] == "aniso"))
    o.add("diffracting", int(np.sum(r[1:] + t[1:]) > 1e-6))
    o.add("totally reflected", int(T1 < 1e-9 * inc))
    o.seen("polarisation", d["pol"])
    o.seen("truncation", f"{d['gmethod']}/{len(G)}")
    a = reference(dict(d, theta=0.0), layers[::-1] if d["back"] else layers, thick[::-1] if d["back"] else thick, bot, G)
    o.nontrivial = bool(max(np.abs(a[0] - r).max(), np.abs(a[1] - t).max()) > 1e-4)
    o.sample = {"R": R1, "T": T1}
    return o
