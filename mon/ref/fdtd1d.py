"""Reference for the FDTD solver's spectrum: geometry of a configuration, two runs, coefficients."""
import numpy as np
from mon.core import Skip
from . import yee

C0 = 299792458.0
EPS0 = 8.8541878128e-12
ETA0 = 4e-7 * np.pi * C0
UM = 1e-6


def scaling(c):
    return max(UM / (c["wl"][0] * UM * 0.1), float(c["minpts"]))


def positions(c):
    """Cell indices of the configured geometry; also the smallest distance of any of them to a rounding boundary."""
    s = scaling(c)
    raw = {}
    cum = c["pml"] + c["fs"]
    raw["r"] = s * cum - c["k"]
    edges = [cum]
    for d in c["thick_full"]:
        edges.append(edges[-1] + d)
    raw["edges"] = [s * e for e in edges]
    raw["t"] = s * edges[-1] + c["k"]
    raw["size"] = s * (2 * c["pml"] + 2 * c["fs"] + sum(c["thick_full"]))
    raw["src"] = s * c["src"][0]
    raw["srcy"] = s * c["src"][1]
    raw["pml"] = s * c["pml"]
    allv = np.array([raw["r"], raw["t"], raw["size"], raw["src"], raw["srcy"], raw["pml"]] + raw["edges"])
    margin = float(np.min(np.abs(allv - np.round(allv))))
    p = {k: int(v) for k, v in raw.items() if k != "edges"}
    p["edges"] = [int(v) for v in raw["edges"]]
    p["srcy"] %= 3
    return p, margin, s


def simulate(c, lam, eps):
    """Runs the configured geometry for wavelength lam (um); eps: complex per layer or None for free space.
    Returns E_z at the transmission and reflection detectors, [niter, 3 points] each (and H likewise)."""
    p, _, s = positions(c)
    n = p["size"]
    cn = 0.99 / np.sqrt(2)
    y = yee.Yee((n, 3, 1), cn)
    y.bounds = [
        yee.Pml(0, "low", p["pml"], y.shape, cn),
        yee.Pml(0, "high", p["pml"], y.shape, cn),
        yee.Periodic(1),
    ]
    dx = UM / s
    dt = cn * dx / C0
    T = lam * UM / C0
    w = yee.waveform(c["pulse"], 1 / T, int(T / dt + 0.5), lam * UM / dx, cn)
    if c["source"] == "line":
        prof = yee.line_profile(3)
        y.sources.append(lambda q: [(p["src"], j, 0, 2, prof[j] * w(q)) for j in range(3)])
    else:
        y.sources.append(lambda q: [(p["src"], p["srcy"], 0, 2, w(q))])
    if eps is not None:
        om = 2 * np.pi * C0 / (lam * UM)
        for a, b, e in zip(p["edges"][:-1], p["edges"][1:], eps):
            y.inv_eps[a:b] = 1 / e.real
            y.loss[a:b] = 0.5 * cn / e.real * e.imag * om * EPS0 * dx * ETA0
    y.watch = [(p["t"], slice(None), 0), (p["r"], slice(None), 0)]
    y.run(c["niter"])
    E = np.array(y.log_E)  # [step, detector, y, comp]
    H = np.array(y.log_H)
    return E, H


class Ambiguous(Skip):
    """A decision of the extraction is too close to its threshold to be judged."""


def cut(sig, lam, minpts, free):
    thr = 0.5 if free else 0.1
    w = int(3 * minpts * lam)
    if abs(3 * minpts * lam - round(3 * minpts * lam)) < 1e-6:
        # on a rounding boundary: allow either (handled by caller through ambiguity)
        raise Ambiguous("window size on rounding boundary")
    big = np.abs(sig) > 1e-8
    first = int(np.argmax(big)) if big.any() else 0
    amb = np.abs(np.abs(sig[: first + 1]) - 1e-8).min() if len(sig) else 1
    if amb < 1e-11:
        raise Ambiguous("signal onset")
    s = sig[first:]
    if len(s) <= 2 * w:
        return s
    n = len(s)
    m = n // w if n % w == 0 else n // w + 1
    m -= 1  # the last two windows count as one
    edges = [i * w for i in range(m)] + [n]
    rng = np.array([np.ptp(s[a:b]) for a, b in zip(edges[:-1], edges[1:])])
    ch = np.abs(rng[:-1] - rng[1:])
    if ch.max() < 1e-12:
        if ch.max() == 0:
            return s[len(ch) * w :]
        raise Ambiguous("no change between windows")
    rel = ch / ch.max()
    if np.min(np.abs(rel - thr)) < 1e-6 + 1e-8 / ch.max():
        raise Ambiguous("window change at threshold")
    last = max(np.nonzero(rel >= thr)[0])
    return s[(last + 1) * w :]


def power(s):
    pk = [i for i in range(1, len(s) - 1) if s[i] > s[i - 1] and s[i] > s[i + 1]]
    d = np.diff(s)
    if len(d) and np.min(np.abs(d)) < 1e-6 * np.max(np.abs(s)):
        raise Ambiguous("two equal neighbours near a peak")
    if len(pk) > 1:
        x = s[pk[0] : pk[-1]]
        return float(np.mean(x * x))
    return float(np.max(s)) ** 2 / 2


def coefficients(t_free, t_mat, r_free, r_mat, lam, minpts):
    """T, R from the four recorded signals."""
    refl = r_mat - r_free
    tf, tm = cut(t_free, lam, minpts, True), cut(t_mat, lam, minpts, False)
    rf = cut(r_free, lam, minpts, True)
    if np.all(refl == 0):
        R = 0.0
    else:
        R = power(cut(refl, lam, minpts, False)) / power(rf)
    T = power(tm) / power(tf)
    s = R + T
    if 1 < s < 1.05:
        T, R = T / s, R / s
    return T, R


def steady(c, lam, eps):
    """R, T of the layers in the steady state of the discrete scheme (exact: recursion over the cells)."""
    p, _, s = positions(c)
    cn = 0.99 / np.sqrt(2)
    dx = UM / s
    dt = cn * dx / C0
    T = lam * UM / C0
    th = 2 * np.pi / int(T / dt + 0.5)
    om = 2 * np.pi * C0 / (lam * UM)
    f0 = 2 + (2 * np.cos(th) - 2) / cn**2
    k = np.arccos(f0 / 2)
    a, b = p["edges"][0], p["edges"][-1]
    fac = []
    for x, y, e in zip(p["edges"][:-1], p["edges"][1:], eps):
        loss = 0.5 * cn / e.real * e.imag * om * EPS0 * dx * ETA0
        fac += [2 + (2 * np.cos(th) - 2 - 2j * loss * np.sin(th)) * e.real / cn**2] * (y - x)
    nxt, cur = np.exp(1j * k * (b + 1)), np.exp(1j * k * b)
    # E[i-1] = f_i E[i] - E[i+1], from cell b (free space) down to cell a - 2
    for i in range(b, a - 2, -1):
        f = fac[i - a] if a <= i < b else f0
        nxt, cur = cur, f * cur - nxt
    # nxt = E[a-1], cur = E[a-2]
    u, v = np.exp(1j * k * (a - 1)), np.exp(1j * k * (a - 2))
    A, B = np.linalg.solve([[u, 1 / u], [v, 1 / v]], [nxt, cur])
    return float(abs(B / A) ** 2), float(1 / abs(A) ** 2)
