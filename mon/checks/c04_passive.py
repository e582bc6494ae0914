"""C04: passive structures never return more light than they receive."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.util import *
from mon.ref.optics import gset, tmm, rcwa
from mon.checks import c02_patterned, c07_fdtdoptics
from mon.fdtdcase import perm, config
from mon import fdtdcase

PROPERTY = "C04"
RULE = (
    "TRCWA on random passive stacks, uniform and patterned (metals, near-zero permittivities, many layers, large and small cells, every "
    "lattice and truncation), FDTD on settled resolved stacks, and the coefficient computation on synthetic steady signals whose powers add up to "
    "0.2 ... 1.2. Monitored: finiteness, R >= 0, T >= 0, R + T <= 1, R + T = 1 for lossless structures (relaxation loss allowed for), "
    "proportional normalisation of sums up to 1.05. Non-trivial: R + T > 0.02 and structure not vacuum; distinct by case."
)
ASSUMPTIONS = [
    "R + T may exceed 1 by what the documented relaxation does to lossless metals (checked against an independent solution, at most 1 %)",
    "lossless balance: 1-R-T <= 2e-3, or equal to the absorption of an independent solution with the documented relaxation within 1e-3 + 5 %",
    "structures whose spectrum changes by > 1e-4 under a relative permittivity change of 1e-9 are not judged",
]
BUDGET = {"quick": 35, "thorough": 800}
MIN_CASES = {"quick": 200, "thorough": 400}
REQUIRED = {"TRCWA values": 200, "lossless balances": 50, "FDTD spectra": 5, "normalisations": 20}


def cases(rng, tier):
    n = 260 if tier == "quick" else 8000
    pat = c02_patterned.cases(rng, "quick")
    out = []
    fd = [dict(c, w="fdtd") for c in c07_fdtdoptics.cases(rng, "quick") if c["niter"] < 600][: 10 if tier == "quick" else 30]
    for i in range(n):
        if i % 8 == 7:
            out.append(dict(w="norm", s=seed(rng), T=rnd(rng, 0.05, 0.9), sum=rng.choice([rnd(rng, 0.2, 0.999), rnd(rng, 1.0005, 1.0095), rnd(rng, 1.0105, 1.04), rnd(rng, 1.065, 1.2)]), lam=rnd(rng, 0.8, 2.0), minpts=rng.choice([10, 14])))
        elif i % 2:
            p = dict(pat[i % len(pat)], w="pat", s=seed(rng), lossless=rng.random() < 0.5)
            p["thick"] = [rnd(rng, 0.01, 1.5) for _ in p["thick"]]
            p["wl"] = [rnd(rng, 0.4, 1.5), rnd(rng, 1.6, 10)]
            if rng.random() < 0.3:
                p["kind"] = rng.choice(["sign_real", "metal"])
            out.append(p)
        else:
            nl = rng.choice([1, 2, 4, 8, 20])
            out.append(
                dict(
                    w="uni", s=seed(rng), nl=nl, nf=rng.choice([1, 3, 6]), kind=rng.choice(LOSSY_KINDS), lossless=rng.random() < 0.4,
                    thick=[10 ** rnd(rng, -3, rng.choice([0.5, 0.5, 2])) for _ in range(rng.choice([1, nl]))], top=rng.choice([1.0, rnd(rng, 1, 6)]), bot=rng.choice([1.0, rnd(rng, 0.5, 12)]),
                    wl=[rnd(rng, 0.3, 2), rnd(rng, 2.1, 30)], ng=11, L=[[0.1, 0.0], [0.0, 0.1]],
                )
            )
    # spread the slow ones over the run
    for k, f in enumerate(fd):
        out.insert((k * 7) % len(out), f)
    return out


def run(case):
    return {"uni": run_trcwa, "pat": run_trcwa, "fdtd": run_fdtd, "norm": run_norm}[case["w"]](case)


def run_trcwa(case):
    import nidn, torch

    g = gen(case)
    nl, nf = case["nl"], case["nf"]
    uni = case["w"] == "uni"
    if uni:
        e = eps_values(g, case["kind"], (1, 1, nl, nf))
        Nx = Ny = 1
    else:
        Nx, Ny = case["grid"]
        G, _, _ = gset(case["ng"], *case["L"])
        for ax, N in ((0, Nx), (1, Ny)):
            v = [p[ax] for p in G]
            if max(v) - min(v) >= N:
                raise Skip("grid does not resolve the orders")
        if case["kind"] == "sign_real":
            e = c02_patterned.pattern(g, dict(case, kind="dielectric"))
            e = e * np.where(g.random((1, 1, nl, nf)) < 0.4, -1, 1)
        else:
            e = c02_patterned.pattern(g, case)
    if case["lossless"]:
        e = e.real + 0j
    if np.any(e.imag < 0):
        e = e.real + 1j * np.abs(e.imag)
    c = cfg(
        Nx=Nx, Ny=Ny, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=list(case["thick"]), TRCWA_TOP_LAYER_EPS=case["top"],
        TRCWA_BOTTOM_LAYER_EPS=case["bot"], physical_wavelength_range=[w * 1e-6 for w in case["wl"]], TRCWA_NG=case["ng"],
        TRCWA_L_grid=[list(x) for x in case["L"]],
    )
    f = freqs(c)
    R, T = map(nums, nidn.compute_spectrum(torch.tensor(e), c))
    th = case["thick"] * nl if len(case["thick"]) == 1 else case["thick"]
    R2, T2 = map(nums, nidn.compute_spectrum(torch.tensor(e * (1 + 1e-9)), c))
    o = Obs()
    o.nontrivial = False
    for i in range(nf):
        if not (np.isfinite(R[i]) and np.isfinite(T[i])):
            # not a number: allowed only for structures without a well-defined spectrum
            v = []
            for s in (1, 1 + 1e-9, 1 - 1e-9, 1 + 1e-6):
                v.append(tmm(f[i], list(e[0, 0, :, i] * s), th, case["top"], case["bot"]) if uni else rcwa(f[i], [e[:, :, l, i] * s for l in range(nl)], th, *case["L"], case["ng"], case["top"], case["bot"]))
            v = np.array(v)
            require(not np.all(np.isfinite(v)) or np.ptp(v, 0).max() > 1e-4, f"R={R[i]} T={T[i]} at frequency {f[i]}, an independent solution gives R={v[0][0]} T={v[0][1]}")
            o.add("singular, not judged")
            continue
        if not max(abs(R[i] - R2[i]), abs(T[i] - T2[i])) < 1e-4:
            o.add("ill-conditioned, not judged")
            continue
        tol = 1e-6 + 50 * max(abs(R[i] - R2[i]), abs(T[i] - T2[i]))
        require(np.isfinite(R[i]) and np.isfinite(T[i]), f"non-finite R={R[i]} T={T[i]} at frequency {f[i]}")
        require(R[i] >= -tol and T[i] >= -tol, f"negative R={R[i]} or T={T[i]} at frequency {f[i]}")
        if R[i] + T[i] > 1 + tol:
            # the relaxation (complex frequency) acts as a slight gain in lossless metals
            r, t = tmm(f[i], list(e[0, 0, :, i]), th, case["top"], case["bot"]) if uni else rcwa(f[i], [e[:, :, l, i] for l in range(nl)], th, *case["L"], case["ng"], case["top"], case["bot"])
            require(
                np.any((e[..., i].real < 0) & (e[..., i].imag < 1e-3)) and R[i] + T[i] < 1.01 and abs(R[i] + T[i] - r - t) <= tol + 0.1 * (R[i] + T[i] - 1),
                f"R+T={R[i] + T[i]} > 1 at frequency {f[i]} for a structure without gain",
            )
            o.add("excess of lossless metals explained by relaxation")
        o.add("TRCWA values", 2)
        o.peak("R+T", R[i] + T[i])
        if R[i] + T[i] > 0.02:
            o.nontrivial = True
        if case["lossless"]:
            miss = 1 - R[i] - T[i]
            if abs(miss) > 2e-3:
                if uni:
                    r, t = tmm(f[i], list(e[0, 0, :, i]), th, case["top"], case["bot"])
                else:
                    r, t = rcwa(f[i], [e[:, :, l, i] for l in range(nl)], th, *case["L"], case["ng"], case["top"], case["bot"])
                require(
                    abs(miss - (1 - r - t)) <= 1e-3 + 0.05 * abs(miss) + tol,
                    f"lossless structure: 1-R-T={miss:.3e} at frequency {f[i]}, the relaxation explains {1 - r - t:.3e}",
                )
                o.add("lossless balances explained by relaxation")
            o.add("lossless balances")
    o.seen("family", case["w"] + "/" + case["kind"] + ("/lossless" if case["lossless"] else ""))
    o.sample = {"R+T": [a + b for a, b in zip(R, T)]}
    return o


def run_fdtd(d):
    import nidn, torch

    d = {k: v for k, v in d.items() if k != "w"}
    e = perm(d)
    R, T = nidn.compute_spectrum(torch.tensor(e)[None, None], config(d))
    R, T = num(R[0]), num(T[0])
    o = Obs()
    require(np.isfinite(R) and np.isfinite(T) and R >= 0 and T >= 0 and R + T <= 1 + 1e-9, f"FDTD R={R} T={T} R+T={R + T}")
    if d["kind"] != "vacuum" and np.all(e.imag == 0):
        require(R + T >= 0.93, f"FDTD lossless stack: R={R} T={T} R+T={R + T}")
    o.add("FDTD spectra")
    o.peak("FDTD R+T", R + T)
    o.nontrivial = d["kind"] != "vacuum"
    o.sample = {"R": R, "T": T}
    return o


def run_norm(case):
    import torch
    coeff = internal("nidn.fdtd_integration.calculate_transmission_reflection_coefficients", "calculate_transmission_reflection_coefficients")

    lam, mp = case["lam"], case["minpts"]
    w = int(3 * mp * lam)
    n = 12 * w
    per = w / 3.0
    q = np.arange(n)
    ramp = np.clip(q / (2.5 * w), 0, 1)
    base = np.sin(2 * np.pi * q / per + 0.3)
    Tt, Rt = case["T"] * case["sum"], (1 - case["T"]) * case["sum"]
    free = base * ramp
    tm = np.sqrt(Tt) * base * ramp
    refl = np.sqrt(Rt) * np.sin(2 * np.pi * q / per + 1.1) * ramp
    c = cfg(FDTD_min_gridpoints_per_unit_magnitude=mp)
    T, R = coeff([torch.tensor(free), torch.tensor(tm)], [torch.tensor(free), torch.tensor(free + refl)], lam * 1e-6, c)
    T, R = num(T), num(R)
    o = Obs()
    s = case["sum"]
    exp_T, exp_R = (Tt, Rt) if s < 1 or s > 1.05 else (Tt / s, Rt / s)
    # where the sum is close to a switching point the error of the windowing decides; those sums are not generated
    require(abs(T - exp_T) < 0.004 * max(1, s) + 0.01 * exp_T and abs(R - exp_R) < 0.004 + 0.01 * exp_R, f"signals with powers T={Tt:.4f} R={Rt:.4f} gave T={T:.4f} R={R:.4f}, expected T={exp_T:.4f} R={exp_R:.4f}")
    if 1.006 < s < 1.044:
        require(abs(R + T - 1) < 1e-12, f"sum {s} in (1, 1.05) was brought to {R + T!r} instead of 1")
    if s < 0.99:
        require(R + T < 1, f"sum {s} became {R + T}")
    require(abs(T / R - Tt / Rt) < 0.03 * Tt / Rt, f"ratio T/R changed from {Tt / Rt} to {T / R}")
    o.add("normalisations")
    o.peak("normalisation deviation", max(abs(T - exp_T), abs(R - exp_R)))
    o.sample = {"T": T, "R": R, "sum": s}
    return o
