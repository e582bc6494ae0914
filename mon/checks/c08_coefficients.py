"""C08: FDTD coefficients are the power ratios of the settled detector signals."""
import re

import numpy as np
from mon.core import Obs, Violation, require, Skip
from mon.util import *
from mon.ref import fdtd1d as F

PROPERTY = "C08"
RULE = (
    "Synthetic free-space and material records (silence, transient of random shape, steady oscillation with random amplitude, phase and harmonics; record lengths from a fraction of a window to 20 windows, "
    "including exactly at, one below and one above whole windows) are given to calculate_transmission_reflection_coefficients. Monitored: equality with an independent extraction, the law a -> a^2 for steady sines whatever phase, delay and length, "
    "invariance under a common scale, proportional normalisation of sums in (1, 1.05) and of no others, reports of values above 1, errors for missing free-space signals. Non-trivial: both coefficients > 1e-6; distinct by case."
)
ASSUMPTIONS = [
    "a window is three times the minimum resolution times the wavelength in um; decisions within 1e-6 of a threshold are not judged",
    "the steady-sine law is judged to 3 % + 1.5/window (the mean square over sampled whole oscillations; the tail of a transient may remain)",
]
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = {"coefficients compared": 400, "steady laws": 100, "errors seen": 8, "lengths at a window limit": 40, "weak signals": 10, "onsets downwards": 50, "unphysical values reported": 40}


def cases(rng, tier):
    out = []
    for i in range(960 if tier == "quick" else 12000):
        d = dict(s=seed(rng), lam=rng.choice([rnd(rng, 0.5, 2.6), rnd(rng, 0.3, 2.6), rnd(rng, 2.6, 12)]), minpts=rng.choice([5, 8, 10, 14, 20]), dtype="float32" if i % 4 == 3 else "float64")
        k = i % 12
        if k < 5:
            d.update(w="free", n=rnd(rng, 0.6, 20, 2), lim=None, dly=rnd(rng, 0, 4, 2))
        elif k < 8:
            d.update(w="free", n=rng.choice([1, 2, 2, 3, 4, 7]), lim=rng.choice([-1, 0, 0, 1]), dly=rng.choice([0, rnd(rng, 0, 3, 2)]))
        elif k < 10:
            d.update(w="steady", n=rnd(rng, 7, 16, 2), lim=rng.choice([None, -1, 0, 1]), dly=rnd(rng, 0, 3, 2), aT=rnd(rng, 0.02, 1.2), aR=rnd(rng, 0.02, 1.2))
        elif k == 10:
            d.update(w="norm", n=rnd(rng, 7, 16, 2), sum=rng.choice([rnd(rng, 0.3, 0.99), rnd(rng, 1.001, 1.049), rnd(rng, 1.001, 1.0099), rnd(rng, 1.0101, 1.049), rnd(rng, 1.051, 2.5)]), aT=rng.choice([rnd(rng, 0.05, 0.9)] * 2 + [0.01, 0.99]))
        else:
            d.update(w="zero", which=rng.choice(["T", "R", "both", "material"]), n=rnd(rng, 1, 9, 2), tiny=rng.choice([0.0, 1e-9, 1e-30]))
        out.append(d)
    return out


def call(d, sig):
    import torch
    coeff = internal("nidn.fdtd_integration.calculate_transmission_reflection_coefficients", "calculate_transmission_reflection_coefficients")

    t = [torch.tensor(np.array(s), dtype=getattr(torch, d["dtype"])) for s in sig]
    c = cfg(FDTD_min_gridpoints_per_unit_magnitude=d["minpts"])
    keep = [x.clone() for x in t]
    T, R = coeff([t[0], t[1]], [t[2], t[3]], d["lam"] * 1e-6, c)
    require(all(torch.equal(a, b) for a, b in zip(t, keep)), "the recorded signals were changed")
    return num(T), num(R), [x.double().numpy() for x in keep]


def window(d):
    return int(3 * d["minpts"] * d["lam"])


def onset(g):
    """a phase with which the oscillation starts clearly upwards or downwards"""
    return g.uniform(0.25, 2.9) + np.pi * (g.random() < 0.5)


def signal(g, n, per, delay, amp, ramp, phase, harm=0.0):
    q = np.arange(n, dtype=float) - delay
    env = np.where(q < 0, 0.0, np.clip((q + 1) / max(ramp, 1), 0, 1))
    s = np.sin(2 * np.pi * q / per + phase) + harm * np.sin(4 * np.pi * q / per + 2 * phase)
    return amp * env * s


def run(d):
    return {"free": run_free, "steady": run_steady, "norm": run_norm, "zero": run_zero}[d["w"]](d)


def signed(x):
    return x[np.flatnonzero(np.abs(x) > 1e-8)[0]] if np.any(np.abs(x) > 1e-8) else 0.0


def run_free(d):
    g = gen(d)
    w = window(d)
    n = int(d["n"] * w) if d["lim"] is None else d["n"] * w + d["lim"]
    per = w / 3 * g.uniform(0.7, 1.4)
    delay = int(d["dly"] * w)
    if d["lim"] is not None:
        n += delay  # the length after the silent part is at a window limit
    if n - delay < 5:
        raise Skip("record ends before the signal")
    tf = signal(g, n, per, delay, 1.0, w * g.uniform(0, 3), onset(g))
    rf = signal(g, n, per, delay, g.uniform(0.5, 2), w * g.uniform(0, 3), onset(g))
    tm = signal(g, n, per, delay if g.random() < 0.5 else int(delay * g.uniform(0, 1)), g.uniform(0.05, 1.0), w * g.uniform(0, 5), onset(g), g.choice([0, 0.2]))
    if g.random() < 0.3:  # slow transient after the onset
        q = np.arange(n)
        tm = tm * (1 + g.uniform(0.2, 2) * np.exp(-q / (w * g.uniform(0.5, 3))))
    refl = signal(g, n, per, delay, g.uniform(0.05, 1.0), w * g.uniform(0, 5), onset(g))
    if g.random() < 0.08:
        refl = refl * 0
    weak = 10 ** g.uniform(-6.3, -4) if g.random() < 0.1 and d["dtype"] == "float64" else 1.0
    if weak**2 * min(np.mean(tf**2), np.mean(rf**2)) < 1e-14:  # near what counts as no signal at all
        weak = 1.0
    T, R, sg = call(d, [weak * x for x in (tf, tm, rf, rf + refl)])
    o = Obs()
    o.add("weak signals", weak < 1)
    o.add("onsets downwards", (signed(sg[0]) < 0) + (signed(sg[2]) < 0))
    try:
        t, r = F.coefficients(*sg, d["lam"], d["minpts"]) if d["dtype"] == "float64" else coefficients32(d, sg)
    except F.Ambiguous as e:
        raise Skip("ambiguous: " + str(e))
    rel = 1e-9 if d["dtype"] == "float64" else 2e-4
    s0 = raw_sum(d, sg)
    if min(abs(s0 - 1), abs(s0 - 1.05)) < 10 * rel:
        raise Skip("sum at a switching point")
    require(abs(T - t) <= rel * abs(t) + 1e-12 and abs(R - r) <= rel * abs(r) + 1e-12, f"returned T={T!r} R={R!r}, settled powers give T={t!r} R={r!r} (record of {n} steps, window {w}, onset {delay})")
    o.add("coefficients compared", 2)
    o.add("lengths at a window limit", d["lim"] is not None)
    o.seen("windows", round((n - delay) / w))
    o.nontrivial = t > 1e-6 and r > 1e-6
    # a common scale of all records cancels
    if d["dtype"] == "float64" and d["s"] % 3 == 0:
        k = 2.0 ** int(g.integers(-3, 6))
        big = [np.abs(x[np.abs(x) > 0]).min() if np.any(x) else 1 for x in (sg[0], sg[1], sg[2], sg[3] - sg[2])]
        if min(big) * min(k, 1) > 1e-7:
            T2, R2, _ = call(d, [k * x for x in sg])
            require(abs(T2 - T) <= 1e-9 * T + 1e-12 and abs(R2 - R) <= 1e-9 * R + 1e-12, f"scaling all records by {k} changed T,R from {T},{R} to {T2},{R2}")
            o.add("scalings")
    o.sample = {"T": T, "R": R, "n": n, "window": w}
    return o


def coefficients32(d, sg):
    """the reflected record is formed in single precision"""
    refl = (sg[3].astype(np.float32) - sg[2].astype(np.float32)).astype(float)
    return F.coefficients(sg[0], sg[1], sg[2], sg[2] + refl, d["lam"], d["minpts"])


def raw_sum(d, sg):
    lam, m = d["lam"], d["minpts"]
    refl = sg[3] - sg[2]
    t = F.power(F.cut(sg[1], lam, m, False)) / F.power(F.cut(sg[0], lam, m, True))
    r = 0 if np.all(refl == 0) else F.power(F.cut(refl, lam, m, False)) / F.power(F.cut(sg[2], lam, m, True))
    return t + r


def run_steady(d):
    """steady sines: the result is the squared relative amplitude"""
    g = gen(d)
    w = window(d)
    per = w / 3 * g.uniform(0.8, 1.2)
    if per < 6:
        raise Skip("oscillation not resolved")
    o = Obs()
    got = []
    base = int(d["n"] * w) if d["lim"] is None else int(d["n"]) * w + d["lim"]
    for k in range(2):  # twice, with other phases, delays and lengths
        dl = int(d["dly"] * w * g.random())
        n = base + dl + (0 if k == 0 else int(g.integers(0, 3 * w)))
        ph = [onset(g) for _ in range(3)]
        tf = signal(g, n, per, dl, 1.0, 1.5 * w, ph[0])
        tm = signal(g, n, per, dl + int(g.integers(0, w)), d["aT"], 1.5 * w, ph[1])
        rl = signal(g, n, per, dl + int(g.integers(0, w)), d["aR"], 1.5 * w, ph[2])
        T, R, _ = call(d, [tf, tm, tf, tf + rl])
        got.append((T, R))
        for nm, v, a in (("T", T, d["aT"]), ("R", R, d["aR"])):
            want = a * a
            s = d["aT"] ** 2 + d["aR"] ** 2
            alt = want / s if 0.96 < s < 1.10 else want
            require(min(abs(v - want), abs(v - alt)) <= (0.03 + 1.5 / w) * want + 1e-4, f"{nm}={v:.5f} for a steady oscillation of relative amplitude {a} (squared {want:.5f}); period {per:.2f}, window {w}, {n} steps, onset {dl}")
            o.add("steady laws")
    o.sample = {"amplitudes": [d["aT"], d["aR"]], "T,R": got}
    return o


def run_norm(d):
    g = gen(d)
    w = window(d)
    n = int(d["n"] * w)
    per = w / 3
    T0 = d["aT"] * d["sum"]
    R0 = (1 - d["aT"]) * d["sum"]
    base = signal(g, n, per, 0, 1.0, 1.5 * w, 0.7)
    # equal waveforms: the ratio of the powers is exact
    from loguru import logger

    heard = []
    sink = logger.add(lambda x: heard.append((x.record["level"].no, str(x.record["message"]))), level="INFO", format="{message}")
    try:
        T, R, sg = call(dict(d, dtype="float64"), [base, np.sqrt(T0) * base, base, base + np.sqrt(R0) * base])
    finally:
        logger.remove(sink)
    try:
        s = raw_sum(d, sg)
        if min(abs(s - 1), abs(s - 1.05)) < 1e-6:
            raise Skip("sum at a switching point")
        t, r = F.coefficients(*sg, d["lam"], d["minpts"])
    except F.Ambiguous as e:
        raise Skip("ambiguous: " + str(e))
    require(abs(T - t) < 1e-9 and abs(R - r) < 1e-9, f"powers adding up to {s:.5f}: returned T={T!r} R={R!r}, expected T={t!r} R={r!r}")
    if 1 < s < 1.05:
        require(abs(T + R - 1) < 1e-12, f"sum {s} was not brought to 1 but to {T + R}")
    o = Obs()
    o.add("coefficients compared", 2)
    # what cannot be is reported with its value: by an error for a coefficient above 1, in some way for a sum above 1
    said = [(lv, [float(x) for x in re.findall(r"\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", m)]) for lv, m in heard]
    for name, v, lv in (("transmission coefficient", t * (s if 1 < s < 1.05 else 1), 40), ("reflection coefficient", r * (s if 1 < s < 1.05 else 1), 40), ("sum of the coefficients", s, 20)):
        if v > 1 + 1e-6:
            require(any(l >= lv and any(abs(x - v) < 1e-3 for x in xs) for l, xs in said), f"a {name} of {v:.5f} is not reported ({heard})")
            o.add("unphysical values reported")
    o.seen("normalised", 1 < s < 1.05)
    o.sample = {"sum": s, "T": T, "R": R}
    return o


def run_zero(d):
    g = gen(d)
    w = window(d)
    n = max(8, int(d["n"] * w))
    sg = [signal(g, n, w / 3, 0, 1.0, w, 0.7) for _ in range(4)]
    sg[1] = 0.5 * sg[1]
    sg[3] = sg[2] + 0.4 * sg[3]
    o = Obs()
    if d["which"] == "material":
        # no transmitted light at all is a valid result
        sg[1] = 0 * sg[1]
        T, R, _ = call(d, sg)
        require(T == 0 and np.isfinite(R), f"no transmitted signal, but T={T}")
        o.add("opaque materials")
        return o
    if d["which"] in ("T", "both"):
        sg[0] = d["tiny"] * sg[0]
    if d["which"] in ("R", "both"):
        sg[2] = d["tiny"] * sg[2]
    try:
        T, R, _ = call(d, sg)
    except Violation:
        raise
    except Exception as e:
        o.add("errors seen")
        o.seen("error", type(e).__name__)
        return o
    raise Violation(f"the free-space signal is missing ({d['which']}, amplitude {d['tiny']}), but T={T} R={R} were returned without an error")
