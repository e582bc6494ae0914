"""C09: the FDTD engine evolves fields by Maxwell's equations on the Yee grid."""
import numpy as np
from mon.core import Obs, Violation, require, Skip
from mon.util import *
from mon.ref import yee

PROPERTY = "C09"
RULE = (
    "Random 1-3 D grids in double and single precision (sizes, spacing, background permittivity/permeability, Courant number) with places, periods and sizes as Python, numpy or float numbers, durations in steps and seconds (whole numbers of steps included), with random absorbing and periodic boundaries on every side and axis, "
    "1-3 objects (uniform or per-cell permittivity, conductivity, single cells, plates and blocks), 1-3 point, line, plane and sampled sources (integer and float periods, amplitudes, phases, continuous/hanning/ricker) and line, point and block detectors. "
    "After every step the complete E and H fields and the detector records are compared with an independent Yee simulation. Monitored without the reference: speed of propagation, linearity in the amplitudes, decay inside absorbing boundaries, one record per step. "
    "Non-trivial: fields above 1e-3 in at least a tenth of the cells; distinct by case."
)
ASSUMPTIONS = [
    "one step: electric update, boundaries, sources, electric record, then magnetic update, boundaries, (plane) sources, magnetic record",
    "the last cell of an object along its normal axis keeps the background's normal permittivity (symmetric objects)",
    "the engine's deliberate 1e-16 in absorbing boundaries (kept for gradients) is below the tolerance",
    "plain objects are not placed over absorbing ones",
]
BUDGET = {"quick": 40, "thorough": 600}
REQUIRED = {"steps compared": 3000, "detector samples": 3000, "causality checks": 500, "linearity checks": 20, "absorption checks": 6}


def cases(rng, tier):
    out = []
    for i in range(400 if tier == "quick" else 6000):
        D = [1, 2, 2, 3, 2][i % 5]
        axes = rng.sample([0, 1, 2], D)
        size = {1: (25, 60), 2: (10, 22), 3: (7, 11)}[D]
        shape = [rng.randint(*size) if a in axes else 1 for a in range(3)]
        if D == 2 and rng.random() < 0.3:
            shape[axes[1]] = 3
        bounds = []
        for a in axes:
            k = rng.choice(["pml", "pml", "low", "high", "periodic", "none"])
            n = rng.randint(1, max(2, shape[a] // 3)) if shape[a] > 6 else 2
            if k == "periodic":
                bounds.append(["periodic", a])
            if k in ("pml", "low") and shape[a] > 5:
                bounds.append(["pml", a, "low", n])
            if k in ("pml", "high") and shape[a] > 5:
                bounds.append(["pml", a, "high", n])
        rng.shuffle(bounds)
        if D == 3 and rng.random() < 0.25:
            bounds = [["domain", rng.randint(1, min(shape) // 2 - 1)]]
        d = dict(s=seed(rng), D=D, axes=axes, shape=shape, bounds=bounds, backend=rng.choice(["torch", "torch.float64", "torch.float32"]), spacing=rng.choice([5e-8, 1e-7, 1.55e-7, 2.5e-8]),
                 eps=rng.choice([1.0, 1.0, rnd(rng, 1, 4)]), mu=rng.choice([1.0, 1.0, rnd(rng, 1, 2)]), cn=rng.choice([None, None, rnd(rng, 0.3, 0.95)]), steps=rng.choice([18, 30, 45]),
                 objects=[rng.choice(["block", "cell", "plate", "percell"]) + "/" + rng.choice(["plain", "lossy", "lossy0"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                 sources=[rng.choice(["point", "point", "line", "line", "plane", "soft"]) for _ in range(rng.choice([1, 1, 2, 3]))],
                 dets=[rng.choice(["line", "point", "list", "block"]) for _ in range(rng.choice([1, 2, 3]))], w="ref")
        if i % 10 == 9:
            # the field points out of the simulated line or plane (no static charges remain)
            axes = [a for a in axes if a != 2] or [0]
            shape = [n if a in axes and n > 12 else (24 if a in axes else 1) for a, n in enumerate(shape)]
            d.update(axes=axes, D=len(axes), shape=shape, cn=None, eps=1.0)
            d.update(w="absorb", bounds=[["pml", a, s, max(4, shape[a] // 3)] for a in axes for s in ("low", "high")], objects=[], sources=["point"], mu=1.0)
        if i % 20 == 8:
            d.update(w="reject")
        out.append(d)
    return out


def A(x):
    import torch

    return x.detach().cpu().numpy().copy() if torch.is_tensor(x) else np.array(x)


def build(d, scale=1.0):
    """the grid under test and the reference, with the same components"""
    import nidn, torch
    from nidn import fdtd
    from nidn.fdtd import sources as S

    g = gen(d)
    fdtd.set_backend(d["backend"])
    kw = {}
    mx = d["D"] ** -0.5
    cn = 0.99 * mx
    if d["cn"] is not None:
        cn = d["cn"] * mx
        kw["courant_number"] = cn
    if d["eps"] != 1.0:
        kw["permittivity"] = d["eps"]
    if d["mu"] != 1.0:
        kw["permeability"] = d["mu"]
    N = d["shape"]
    G = fdtd.Grid(shape=tuple(N) if g.random() < 0.5 else tuple(np.array(N)) if g.random() < 0.2 else tuple((n * d["spacing"] if n > 1 else 1) for n in N), grid_spacing=d["spacing"], **kw)
    require(tuple(G.shape) == tuple(N), f"grid of shape {G.shape} instead of {N}")
    require(abs(G.time_step * 299792458.0 / d["spacing"] - cn) < 1e-6, f"time step {G.time_step} does not belong to the Courant number {cn}")
    Y = yee.Yee(N, cn, d["eps"], d["mu"])
    full = (slice(None),) * 3
    for b in d["bounds"]:
        if b[0] == "domain":
            # absorbing boundaries all around
            from nidn.fdtd.boundaries import DomainBorderPML

            DomainBorderPML(G, b[1]) if b[1] != 5 or g.random() < 0.5 else DomainBorderPML(G)
            for a in (2, 0, 1):
                for side in ("low", "high"):
                    Y.bounds.append(yee.Pml(a, side, b[1], tuple(N), cn, 1e-8))
        elif b[0] == "periodic":
            key = list(full)
            key[b[1]] = int(g.choice([0, -1]))
            key = [k if isinstance(k, slice) else k for k in key]
            G[tuple(key)] = fdtd.PeriodicBoundary(name=None)
            Y.bounds.append(yee.Periodic(b[1]))
        else:
            key = list(full)
            key[b[1]] = slice(0, b[3]) if b[2] == "low" else slice(-b[3], None)
            a = float(g.choice([1e-8, 1e-8, 1e-2]))
            if b[2] == "low" and g.random() < 0.3:
                key[b[1]] = slice(None, b[3])
            G[place(d, g, key, 0.15)] = fdtd.PML(a=a, name=f"pml{b[1]}{b[2]}")
            Y.bounds.append(yee.Pml(b[1], b[2], b[3], tuple(N), cn, a))
    # objects
    lossy = np.zeros(N, bool)
    for k, o in enumerate(d["objects"]):
        geo, mat = o.split("/")
        sl = []
        key = []
        for a in range(3):
            if N[a] == 1:
                sl.append(slice(0, 1))
                key.append([0, slice(0, 1), slice(None)][int(g.integers(3))])
                continue
            lo = int(g.integers(0, N[a] - 1))
            hi = int(g.integers(lo + 1, N[a] + 1))
            if geo == "cell" or geo == "plate" and a == d["axes"][0]:
                hi = lo + 1
                key.append(lo if g.random() < 0.6 else slice(lo, lo + 1))
            elif geo == "plate":
                lo, hi = 0, N[a]
                key.append(slice(None))
            else:
                key.append(slice(lo, hi))
            sl.append(slice(lo, hi))
        sl = tuple(sl)
        n = [s.stop - s.start for s in sl]
        if mat == "plain" and lossy[sl].any():
            continue
        e = g.uniform(1, 8, n) if geo == "percell" else g.uniform(1, 8)
        if mat == "plain":
            obj = fdtd.Object(permittivity=conv(d, e), name=f"o{k}" if g.random() < 0.5 else None)
            c = 0.0
        else:
            c = 0.0 if mat == "lossy0" else 10 ** g.uniform(2, 6)
            if mat == "lossy" and g.random() < 0.3:
                c = 10 ** g.uniform(2, 6, n)
            obj = fdtd.AbsorbingObject(permittivity=conv(d, e), conductivity=conv(d, c), name=f"o{k}")
            lossy[sl] = True
        for a in range(3):
            # counted from the far end
            if isinstance(key[a], slice) and N[a] > 1 and g.random() < 0.15 and key[a].start is not None and key[a].start > 0:
                key[a] = slice(key[a].start - N[a], key[a].stop - N[a] if key[a].stop < N[a] else None)
            elif isinstance(key[a], int) and N[a] > 1 and g.random() < 0.2:
                key[a] -= N[a]
        G[place(d, g, key, 0.2)] = obj
        ie = np.broadcast_to(1.0 / (e[..., None] if np.ndim(e) else e), tuple(n) + (3,)).copy()
        bg = Y.inv_eps
        for a in range(3):
            if n[a] > 1:
                # same component as seen at the far end of the grid
                src = [sl[0], sl[1], sl[2], a]
                src[a] = -1
                dst = [slice(None)] * 3 + [a]
                dst[a] = -1
                ie[tuple(dst)] = bg[tuple(src)]
        Y.inv_eps[sl] = ie
        if mat != "plain":
            eta = 4e-7 * np.pi * 299792458.0
            Y.loss[sl] = 0.5 * cn * ie * (c[..., None] if np.ndim(c) else c) * d["spacing"] * eta
    # sources
    dt = G.time_step
    hits = []
    hard = []
    amps = []
    for k, kind in enumerate(d["sources"]):
        pos = [int(g.integers(0, n)) for n in N]
        if d["w"] == "absorb":
            pos = [n // 2 for n in N]
        amp = float(g.choice([1.0, g.uniform(0.1, 5), -2.0])) * scale
        ph = float(g.choice([0.0, g.uniform(-6, 12)]))
        per = int(g.integers(6, 25) if g.random() < 0.85 else g.choice([2, 3, 4, 5, 60, 200]))
        fl = g.random() < 0.5
        period = (per if g.random() < 0.7 else np.int64(per)) if not fl else (per + g.uniform(-0.3, 0.3)) * dt
        sig = str(g.choice(["continuous", "continuous", "hanning", "ricker"]))
        if d["w"] == "absorb":
            sig, fl = "ricker", True
            period = 12 * dt
        if not fl and sig != "continuous":
            sig = "continuous"
        name = f"s{k}" if g.random() < 0.5 else None
        kws = dict(period=period, amplitude=amp, phase_shift=ph, name=name, signal_type=sig)
        hdt, cyc = 1e-15, 5
        if sig == "hanning":
            cyc = int(g.integers(2, 6))
            # a burst of some 10-40 steps
            hdt = 2 * np.pi * cyc * period / (int(g.integers(10, 40)) + g.uniform(0.02, 0.98))
            kws.update(hanning_dt=hdt, cycle=cyc)
        fr = 1.0 / period
        wav = yee.waveform(sig, fr, per, 299792458.0 / fr / d["spacing"], cn, cyc, hdt, ph)
        if kind == "line" and max(N) > 3:
            key, cells = line(d, g, N, pos, 2)
            G[place(d, g, key)] = fdtd.LineSource(**kws)
            prof = yee.line_profile(cells)
            Y.sources.append(lambda q, cells=cells, prof=prof, wav=wav, amp=amp: [(*c, 2, amp * p * wav(q)) for c, p in zip(cells, prof)])
            hits += cells
        elif kind == "plane" and sum(n > 2 for n in N) >= 2 and d["D"] >= 2:
            big = [a for a in range(3) if N[a] > 2][:3]
            flat = [a for a in range(3) if a not in big] or [big.pop(int(g.integers(3)))]
            big = [a for a in range(3) if a not in flat][:2]
            flat = flat[0]
            key = list(pos)
            sl = [None] * 3
            for a in big:
                lo = int(g.integers(0, N[a] - 2))
                hi = int(g.integers(lo + 2, N[a] + 1))
                key[a] = slice(lo, hi)
                sl[a] = slice(lo, hi)
            sl[flat] = slice(pos[flat], pos[flat] + 1)
            pol = int(g.choice(big))
            hp = [a for a in big if a != pol][0]
            if g.random() < 0.2:
                key[flat] -= N[flat]
            src = fdtd.PlaneSource(period=period, amplitude=amp, phase_shift=ph, name=name, polarization="xyz"[pol])
            G[place(d, g, key)] = src
            cont = yee.waveform("continuous", fr, per, 1, cn, phase=ph)
            hard.append((tuple(sl), pol, hp, lambda q, cont=cont, amp=amp: amp * cont(q)))
            Y.sources.append(("plane", len(hard) - 1))
            hits += [None]
        elif kind == "soft":
            w = g.normal(size=int(g.integers(3, d["steps"] + 5))) * scale
            # away from the first cells, where the current is not defined; the resistance feeds the current back
            pos = [max(p, 1) if n > 1 else p for p, n in zip(pos, N)]
            z = float(g.choice([0.0, g.uniform(0.02, 0.2)])) if all(n > 1 for n in N[:2]) else 0.0
            src = S.SoftArbitraryPointSource(np.array(w) * d["spacing"], name=name, **({"impedance": z} if z else {}))
            G[place(d, g, pos)] = src
            Y.sources.append(lambda q, p=tuple(pos), w=w, z=z: [(*p, 2, (w[q] if q < len(w) else 0.0) + (z * current(Y.H, p) if z and q else 0.0))])
            if all(n > 1 for n in N[:2]):
                amps.append((src.current_detector, [tuple(pos)]))
            hits.append(tuple(pos))
        else:
            key = list(pos)
            a = int(g.integers(3))
            if g.random() < 0.2:
                key[a] -= N[a]
            G[place(d, g, key)] = fdtd.PointSource(**kws)
            Y.sources.append(lambda q, p=tuple(pos), wav=wav, amp=amp: [(*p, 2, amp * wav(q))])
            hits.append(tuple(pos))
    # detectors
    dets = []
    for k, kind in enumerate(d["dets"]):
        pos = [int(g.integers(0, n)) for n in N]
        name = f"d{k}" if g.random() < 0.7 else None
        if kind == "line":
            key, cells = line(d, g, N, pos, 1)
            det = fdtd.LineDetector(name=name)
            G[place(d, g, key)] = det
        elif kind == "point":
            cells = [tuple(pos)]
            det = fdtd.LineDetector(name=name)
            G[place(d, g, pos)] = det
        elif kind == "list":
            m = int(g.integers(1, 6))
            ix = [[int(g.integers(0, n)) for _ in range(m)] for n in N]
            cells = list(zip(*ix))
            det = fdtd.LineDetector(name=name)
            G[place(d, g, ix)] = det
        else:
            ix = [sorted(int(g.integers(0, n)) for _ in range(2)) for n in N]
            cells = [(x, y, z) for x in ix[0] for y in ix[1] for z in ix[2]]
            det = fdtd.BlockDetector(name=name)
            G[ix[0], ix[1], ix[2]] = det
        if kind == "list" and all(n > 1 for n in N[:2]) and g.random() < 0.5:
            ix = [[max(1, v) if n > 1 else 0 for v in sorted(set(i))[:m]] for i, n in zip(ix, N)]
            ix = [[i[j % len(i)] for j in range(m)] for i in ix]
            cells2 = [(x, y, z) for x in ix[0] for y in ix[1] for z in ix[2]]
            amp = S.CurrentDetector(name=f"i{k}")
            G[ix[0], ix[1], ix[2]] = amp
            amps.append((amp, cells2))
        if name:
            require(getattr(G, name) is det, f"detector {name} is not available under its name")
        dets.append((det, cells))
    return G, Y, hits, hard, (dets, amps)


def current(H, c):
    """circulation of H around the vertical edges of a cell and of the one below it, averaged (in cells)"""
    x, y, z = c
    return np.mean([H[x, y - 1, k, 0] - H[x, y, k, 0] + H[x, y, k, 1] - H[x - 1, y, k, 1] for k in (z, z - 1)])


def line(d, g, N, pos, least):
    """a line along the longest axis, or the diagonal of a box (towards either end); its key and cells"""
    a = int(np.argmax(N))
    lo = int(g.integers(0, N[a] - least))
    hi = int(g.integers(lo + least, N[a] + 1))
    key = list(pos)
    key[a] = slice(lo, hi)
    if least == 1 and g.random() < 0.3:
        key[a], lo, hi = slice(None), 0, N[a]
    m = hi - lo
    ix = [[p] * m for p in pos]
    ix[a] = list(range(lo, hi))
    for b in range(3):
        if b != a and N[b] > 1 and g.random() < 0.5:
            n = int(g.integers(1, min(m, N[b] - 1) + 1))
            s = int(g.integers(0, N[b] - n))
            down = g.random() < 0.4
            key[b] = slice(s + n, s) if down else slice(s, s + n)
            # the cells in which the points dividing the line in m equal parts lie, exactly
            ix[b] = [(m * (s + n) - k * n) // m if down else (m * s + k * n) // m for k in range(m)]
    return key, list(zip(*ix))


def metres(d, g, k):
    """the same key with positions in metres instead of cells (non-negative ones)"""
    h = d["spacing"]
    j = lambda v: v if v is None or v < 0 else float((v + g.uniform(-0.4, 0.4) * (v > 0)) * h)
    if isinstance(k, slice):
        return slice(j(k.start), j(k.stop))
    if isinstance(k, list):
        return [j(v) for v in k]
    return j(k)


def numpyish(g, k):
    """the same key with numpy integers"""
    t = [np.int64, np.int32, np.uint8, np.intp][int(g.integers(4))]
    j = lambda v: v if v is None or v < 0 or v > 200 else t(v)
    if isinstance(k, slice):
        return slice(j(k.start), j(k.stop))
    if isinstance(k, list):
        return [j(v) for v in k]
    return j(k)


def place(d, g, key, p=0.25):
    key = tuple(metres(d, g, k) if g.random() < p else numpyish(g, k) if g.random() < 0.15 else k for k in key)
    # whole axes at the end may be left out
    while len(key) > 1 and key[-1] == slice(None) and g.random() < 0.5:
        key = key[:-1]
    return key[0] if len(key) == 1 and g.random() < 0.5 else key


def conv(d, e):
    import torch

    if np.ndim(e):
        return torch.tensor(e)
    return e


def ref_step(Y, hard):
    """one step of the reference, with plane sources that impose the field"""
    soft = Y.sources
    for b in Y.bounds:
        b.pre_E(Y.H)
    curl = np.zeros_like(Y.E)
    for c, ax, oc, s in yee.CURL:
        curl[..., c] += s * yee._dh(Y.H[..., oc], ax)
    Y.E = (Y.E * (1 - Y.loss) + Y.courant * Y.inv_eps * curl) / (1 + Y.loss)
    for b in Y.bounds:
        b.post_E(Y)
    for f in soft:
        if isinstance(f, tuple):
            sl, pol, hp, w = hard[f[1]]
            Y.E[sl + (pol,)] = w(Y.q)
        else:
            for x, y, z, c, v in f(Y.q):
                Y.E[x, y, z, c] += v
    E = Y.E.copy()
    for b in Y.bounds:
        b.pre_H(Y.E)
    curl = np.zeros_like(Y.H)
    for c, ax, oc, s in yee.CURL:
        curl[..., c] += s * yee._de(Y.E[..., oc], ax)
    Y.H = Y.H - Y.courant * Y.inv_mu * curl
    for b in Y.bounds:
        b.post_H(Y)
    for f in soft:
        if isinstance(f, tuple):
            sl, pol, hp, w = hard[f[1]]
            Y.H[sl + (hp,)] = w(Y.q)
    Y.q += 1
    return E


def run(d):
    from nidn import fdtd

    old = type(fdtd.backend), fdtd.backend.float
    try:
        return {"absorb": run_absorb, "ref": run_ref, "reject": run_reject}[d["w"]](d)
    finally:
        fdtd.backend.__class__, fdtd.backend.float = old


def advance(G, g, n):
    """some steps through the public ways to make them"""
    if n == 1 and g.random() < 0.6:
        G.step()
    elif g.random() < 0.3:
        # a duration in seconds: the whole steps it holds
        t = (n + float(g.choice([0.0, g.uniform(0.1, 0.9)]))) * G.time_step
        G.run([float, np.float64, np.float32][int(g.integers(3))](t) if t > (n + 0.05) * G.time_step else t, progress_bar=False)
    elif g.random() < 0.2:
        G.run(np.int64(n), progress_bar=False)
    else:
        G.run(n, progress_bar=False)


def run_ref(d):
    G, Y, hits, hard, (dets, amps) = build(d)
    g = np.random.default_rng(d["s"] + 7)
    o = Obs()
    logE, logH = [], []
    scale = 1e-8
    N = np.array(d["shape"])
    periodic = any(b[0] == "periodic" for b in d["bounds"])
    while Y.q < d["steps"]:
        n = int(g.choice([1, 1, 1, 2, 5, 5, 11, 23]))
        n = min(n, d["steps"] - Y.q)
        advance(G, g, n)
        for _ in range(n):
            logE.append(ref_step(Y, hard))
            logH.append(Y.H.copy())
        require(int(G.time_steps_passed) == Y.q, f"{G.time_steps_passed} steps counted after {Y.q}")
        require(abs(G.time_passed - Y.q * G.time_step) <= 1e-12 * G.time_passed, f"{G.time_passed} s passed after {Y.q} steps of {G.time_step} s")
        e, h = A(G.E), A(G.H)
        scale = max(scale, np.abs(Y.E).max(), np.abs(Y.H).max())
        for nm, x, y in (("E", e, Y.E), ("H", h, Y.H)):
            require(x.shape == y.shape, f"{nm} has shape {x.shape}")
            err = np.abs(x - y).max()
            if not err <= 6e-6 * scale:
                w = np.unravel_index(np.nanargmax(np.abs(x - y)), x.shape)
                raise Violation(f"step {Y.q} ({d['backend']}): {nm} at cell {tuple(map(int, w[:3]))} component {w[3]} is {x[w]!r}, the Yee scheme gives {y[w]!r} (largest field {scale:.3g})")
            o.peak("field deviation/largest field", err / scale)
        o.add("steps compared", n)
        # propagation: no more than one cell per step and axis
        if not periodic and None not in hits:
            c = np.indices(d["shape"])
            dist = np.min([np.max([np.abs(c[a] - p[a]) for a in range(3)], axis=0) for p in hits], axis=0)
            far = dist > Y.q
            if far.any():
                require(np.abs(e[far]).max() < 1e-13 and np.abs(h[far]).max() < 1e-13, f"fields further than {Y.q} cells from the source after {Y.q} steps")
                o.add("causality checks", int(far.sum()))
    for det, cells in dets:
        v = det.detector_values()
        for nm, log in (("E", logE), ("H", logH)):
            rec = v[nm]
            require(len(rec) == Y.q, f"{len(rec)} {nm} records after {Y.q} steps")
            for q in range(Y.q):
                r = np.array([A(x) for x in rec[q]]) if not isinstance(det, __import__("nidn").fdtd.BlockDetector) else np.array([[[A(z) for z in y] for y in x] for x in rec[q]]).reshape(-1, 3)
                want = np.array([log[q][c] for c in cells])
                require(r.shape == want.shape, f"{nm} record of shape {r.shape} for {len(cells)} cells")
                require(np.abs(r - want).max() <= 6e-6 * scale, f"{type(det).__name__}: record {q} of {nm} is not the field at its cells at that step")
            o.add("detector samples", Y.q * len(cells))
    for det, cells in amps:
        v = det.detector_values()["I"]
        require(len(v) == Y.q, f"{len(v)} currents after {Y.q} steps")
        for q in range(Y.q):
            r = [float(A(z)) for x in v[q] for y in x for z in y]
            require(len(r) == len(cells), f"{len(r)} currents for {len(cells)} cells")
            for i, c in zip(r, cells):
                require(abs(i / d["spacing"] - current(logH[q], c)) <= 2e-5 * scale, f"current {q} at {c} is {i / d['spacing']!r} cells, the circulation of H is {current(logH[q], c)!r}")
        o.add("current samples", Y.q * len(cells))
    # linearity
    if d["s"] % 4 == 0:
        G2, *_ = build(d, scale=4.0)
        G2.run(d["steps"], progress_bar=False)
        for nm, x, y in (("E", A(G.E), A(G2.E)), ("H", A(G.H), A(G2.H))):
            require(np.abs(y - 4 * x).max() <= 1e-5 * 4 * scale, f"four times the source amplitudes do not give four times the {nm} field")
        o.add("linearity checks", 2)
    # starting again from empty fields (absorbing boundaries keep their memory and are left out)
    if not any(b[0] in ("pml", "domain") for b in d["bounds"]) and not any(z.startswith("soft") for z in d["sources"]):
        last = A(G.E), A(G.H)
        G.reset()
        require(not A(G.E).any() and not A(G.H).any() and int(G.time_steps_passed) == 0, "a reset grid has fields or counted steps")
        G.run(d["steps"], progress_bar=False)
        for nm, x, y in (("E", A(G.E), last[0]), ("H", A(G.H), last[1])):
            require(np.abs(x - y).max() <= 1e-6 * scale, f"the same simulation after a reset gives another {nm} field")
        o.add("resets")
    o.nontrivial = np.mean(np.abs(Y.E).max(-1) > 1e-3) > 0.1
    o.seen("backend/dimension", f"{d['backend']}/{d['D']}")
    for x in d["objects"]:
        o.seen("object", x)
    for x in d["sources"]:
        o.seen("source", x)
    for b in d["bounds"]:
        o.seen("boundary", "/".join(map(str, b[:3])))
    o.sample = {"largest field": float(scale)}
    return o


def run_absorb(d):
    """a pulse leaves a box of absorbing boundaries (for good)"""
    G, Y, hits, hard, dets = build(d)
    o = Obs()
    peak = 0
    n = 12 * 6 + 6 * max(d["shape"]) + 60
    for _ in range(n):
        G.step()
        peak = max(peak, float(np.sum(A(G.E) ** 2) + np.sum(A(G.H) ** 2)))
    # a soft source leaves a static remainder where charges stay; moving fields are seen in the differences
    e0, h0 = A(G.E), A(G.H)
    mv = 0
    for _ in range(10):
        G.step()
        mv = max(mv, float(np.sum((A(G.E) - e0) ** 2) + np.sum((A(G.H) - h0) ** 2)))
    require(mv < 0.02 * peak, f"{mv / peak:.2%} of the pulse's energy is still moving {n} steps after it was sent into absorbing boundaries")
    o.add("absorption checks")
    o.peak("moving energy left", mv / peak)
    o.sample = {"peak": peak, "left": mv}
    return o


def run_reject(d):
    """components that cannot be placed are refused"""
    import nidn
    from nidn import fdtd

    g = gen(d)
    fdtd.set_backend(d["backend"])
    N = d["shape"]
    N = [max(n, 9) for n in N]
    new = lambda **k: fdtd.Grid(shape=tuple(N), grid_spacing=d["spacing"], **k)
    o = Obs()

    # durations of a whole number of steps, given in seconds
    G = fdtd.Grid(shape=(3, 1, 1), grid_spacing=d["spacing"], **({} if d["cn"] is None else {"courant_number": float(d["cn"])}))
    was = 0
    for n in g.integers(1, 150, 25):
        G.run(int(n) * G.time_step, progress_bar=False)
        require(int(G.time_steps_passed) - was == n, f"{int(n)} time steps of {G.time_step} s, given in seconds, were run as {int(G.time_steps_passed) - was} steps")
        was = int(G.time_steps_passed)
        o.add("durations in seconds")

    def refuse(what, f):
        try:
            f()
        except (ValueError, IndexError, KeyError, AttributeError, TypeError, RuntimeError) as e:
            o.add("refusals")
            o.seen("refused", what)
            return
        raise Violation(f"{what}: accepted")

    def at(G, key, c):
        G[key] = c

    for D in (1, 2, 3):
        sh = tuple(N[a] if a < D else 1 for a in range(3))
        mx = D**-0.5
        refuse("Courant number above the limit", lambda: fdtd.Grid(shape=sh, grid_spacing=1e-7, courant_number=mx * (1 + 10 ** g.uniform(-3, 0))))
        for f in (0.999, 1.0, float(g.uniform(0.01, 1))):
            ok = fdtd.Grid(shape=sh, grid_spacing=1e-7, courant_number=mx * f)
            require(abs(ok.courant_number - f * mx) < 1e-9, "a valid Courant number is not used")
    for _ in range(6):
        sh = tuple(int(g.choice([1, 2, 2, 3, 9])) for _ in range(3))
        if max(sh) > 1:
            dim = sum(n > 1 for n in sh)
            G = fdtd.Grid(shape=sh, grid_spacing=d["spacing"])
            require(abs(G.courant_number - 0.99 * dim**-0.5) < 1e-9 and abs(G.time_step - G.courant_number * d["spacing"] / 299792458.0) < 1e-9 * G.time_step, f"grid of shape {sh}: Courant number {G.courant_number}, time step {G.time_step}")
    refuse("shape of two numbers", lambda: fdtd.Grid(shape=(5, 5), grid_spacing=1e-7))
    mk = {"point": lambda n: fdtd.PointSource(period=10, name=n), "detector": lambda n: fdtd.LineDetector(name=n), "block": lambda n: fdtd.BlockDetector(name=n), "object": lambda n: fdtd.Object(2.0, name=n), "absorbing": lambda n: fdtd.AbsorbingObject(2.0, 1.0, name=n)}
    for k1 in mk:
        for k2 in mk:
            G = new()
            G[2, 2, 2] = mk[k1]("twin")
            refuse("two components with one name", lambda: at(G, (4, 4, 4), mk[k2]("twin")))
    # one boundary per side
    side = lambda a, w: tuple(slice(None) if b != a else (slice(0, int(g.integers(1, 4))) if w == "low" else slice(-int(g.integers(1, 4)), None) if w == "high" else int(g.choice([0, -1]))) for b in range(3))
    bnd = lambda w: fdtd.PeriodicBoundary() if w == "periodic" else fdtd.PML()
    from nidn.fdtd.boundaries import DomainBorderPML

    for a in range(3):
        for w1, w2 in (("low", "low"), ("high", "high"), ("low", "periodic"), ("high", "periodic"), ("periodic", "low"), ("periodic", "high"), ("periodic", "periodic")):
            G = new()
            G[side(a, w1)] = bnd(w1)
            refuse(f"{w1} and {w2} boundaries on one side", lambda: at(G, side(a, w2), bnd(w2)))
        G = new()
        G[side(a, "low")] = bnd("low")
        G[side(a, "high")] = bnd("high")
        G[side((a + 1) % 3, "low")] = bnd("low")
        G[side((a + 2) % 3, "periodic")] = bnd("periodic")
        kinds = [type(q).__name__ for q in G.boundaries]
        require(len(kinds) == len(set(kinds)) == 4, f"boundaries on different sides became {kinds}")
        refuse("boundary inside", lambda: at(new(), tuple(slice(3, 6) if b == a else slice(None) for b in range(3)), fdtd.PML()))
        n = [24, 24, 24]
        n[a] = int(g.integers(9, 12))
        refuse("absorbing boundaries thicker than the grid", lambda: DomainBorderPML(fdtd.Grid(shape=tuple(n), grid_spacing=1e-7), n[a] // 2 + 1))
    refuse("boundary inside", lambda: at(new(), (slice(3, 6), slice(None), slice(None)), fdtd.PML()))
    refuse("boundary inside", lambda: at(new(), (slice(None), int(g.integers(1, 8)), slice(None)), fdtd.PeriodicBoundary()))
    refuse("four indices", lambda: at(new(), (1, 1, 1, 1), fdtd.LineDetector()))
    refuse("point source on a line", lambda: at(new(), (slice(1, 3), 1, 1), fdtd.PointSource(period=10)))
    refuse("line source of one point", lambda: at(new(), (slice(1, 2), 1, 1), fdtd.LineSource(period=10)))
    refuse("plane source on a line", lambda: at(new(), (slice(1, 4), 1, 1), fdtd.PlaneSource(period=10)))
    refuse("plane source in a block", lambda: at(new(), (slice(1, 4), slice(1, 4), slice(2, 5)), fdtd.PlaneSource(period=10)))
    for a in range(3):
        refuse("plane source polarised along its normal", lambda: at(new(), tuple(2 if b == a else slice(1, 5) for b in range(3)), fdtd.PlaneSource(period=10, polarization="xyz"[a])))
    refuse("lists of different lengths", lambda: at(new(), ([1, 2], [1, 2, 3], [1, 1]), fdtd.LineDetector()))
    refuse("object with gaps", lambda: at(new(), (slice(1, 6, 2), 1, 1), fdtd.Object(2.0)))
    # pulse shapes
    from nidn.fdtd import waveforms as wf

    for _ in range(4):
        c, fw = float(g.choice([0.0, g.uniform(-50, 50)])), float(10 ** g.uniform(-2, 2))
        k = {"center": c} if c else {}
        y = lambda x: float(wf.normalized_gaussian_pulse(x, fw, **k))
        dy = lambda x: float(wf.normalized_gaussian_derivative_pulse(x, fw, **k))
        sg = fw / (8 * np.log(2)) ** 0.5
        require(abs(y(c) - 1) < 1e-9 and abs(y(c + fw / 2) - 0.5) < 1e-6 and abs(y(c - fw / 2) - 0.5) < 1e-6, f"gaussian pulse of width {fw} around {c}: {y(c)}, {y(c + fw / 2)}, {y(c - fw / 2)}")
        x = c + float(g.uniform(-1.5, 1.5)) * fw
        require(abs(y(x) - np.exp(-((x - c) ** 2) / 2 / sg**2)) < 1e-6, "shape of the gaussian pulse")
        require(abs(dy(x) - (x - c) / sg * np.exp(0.5 - ((x - c) ** 2) / 2 / sg**2)) < 1e-6 and abs(dy(c + sg) - 1) < 1e-6, "shape of the gaussian derivative pulse")
        o.add("pulse shapes")
    refuse("unknown backend", lambda: fdtd.set_backend(str(g.choice(["tensorflow", "jax.float32", "numpi"]))))
    o.nontrivial = True
    o.sample = {"refusals": o.count.get("refusals")}
    return o
