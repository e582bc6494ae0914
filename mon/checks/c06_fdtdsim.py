"""C06: the FDTD solver simulates exactly the configured geometry, source and detectors."""
import re
import numpy as np
from mon.core import Obs, require
from mon.fdtdcase import *

PROPERTY = "C06"
RULE = (
    "Random valid FDTD configurations (1-11 layers with one or several thicknesses, real/lossy/high permittivities, 1-2 or up to 21 wavelengths from 0.36 to 5.5 um, "
    "resolution from wavelength or from the minimum, PML and free-space sizes, detector distance, line/point source at free positions, "
    "continuous/hanning/ricker signals, 61-260 steps). Every grid created by compute_spectrum is recorded; each E and H sample of both "
    "detectors of the free-space and the material run is compared with an independent numpy Yee simulation of the configured geometry, and R and T with "
    "coefficients computed independently from the reference signals; warnings about too few steps and rounded thicknesses against the geometry. Non-trivial: the material changes the recorded signals by > 1e-3; distinct by case."
)
ASSUMPTIONS = [
    "positions in cells are the truncated products of the scaling and the configured distances; cases with a position within 0.03 cells of a rounding boundary are not generated",
    "coefficients are compared for continuous sources, and when no threshold decision of the extraction is marginal",
    "real permittivity >= 1 (the explicit scheme is unstable below)",
]
BUDGET = {"quick": 60, "thorough": 900}
MIN_CASES = {"quick": 30, "thorough": 100}
REQUIRED = {"field samples compared": 20000, "grids observed": 40, "coefficients compared": 8}


def cases(rng, tier):
    n = 72 if tier == "quick" else 1500
    out = []
    for i in range(n):
        out.append(draw(rng, pulse=["continuous", "continuous", "hanning", "ricker"][i % 4], source=["line", "point", "line"][i % 3], where="any",
                        nl=[1, 2, 3, 4][i // 4 % 4], kind=["dielectric", "lossy", "mixed", "high", "related"][i // 2 % 5], single=(i % 5 == 0) if i % 2 else None))
    for i in range(8 if tier == "quick" else 150):  # distant detectors, many layers
        far = i % 2 == 0
        kw = dict(k=rng.choice([8, 12, 17, 26]), fs=(1.5, 2.6), minpts=15) if far else dict(nl=rng.choice([7, 8, 9, 11] if i % 4 == 3 else [5, 6, 8, 11]), thick=(0.08, 0.25), minpts=rng.choice([12, 15, 18]), single=i % 4 == 3)
        out.append(draw(rng, pulse=["continuous", "hanning"][i // 2 % 2], nf=1, **kw))
    for i in range(8 if tier == "quick" else 120):  # long and short wavelengths, few time steps
        kind = i % 4
        kw = [dict(wl=[2.6, rnd(rng, 3.1, 5.5)], minpts=rng.choice([4, 6]), source="line"), dict(wl=[2.6, rnd(rng, 3.1, 5.5)], minpts=rng.choice([4, 6]), source="point"),
              dict(wl=[0.36, rnd(rng, 0.4, 0.6)], thick=(0.08, 0.3), fs=(0.4, 0.8), source=["point", "line"][i // 4 % 2]), dict(wl=[1.7, rnd(rng, 1.8, 2.6)], minpts=6, thick=(0.2, 0.5), nl=rng.choice([1, 2]), k=1, source=["line", "point"][i // 4 % 2])][kind]
        d = draw(rng, pulse=["hanning", "hanning", "hanning", "continuous"][kind] if i < 4 or rng.random() < 0.5 else "ricker", nf=1, **kw)
        if kind == 3:
            d["niter"] = rng.choice([61, 80, 97])
        out.append(d)
    for i in range(4 if tier == "quick" else 90):  # unusual permittivities
        out.append(draw(rng, pulse=["continuous", "hanning"][i // 2 % 2], nf=1, nl=rng.choice([1, 2, 3]), kind=["gain", "dense"][i % 2]))
    for i in range(3 if tier == "quick" else 40):  # long runs; fine grids; thick layers and boundaries
        d = draw(rng, pulse=["continuous", "ricker", "hanning"][i % 3], nf=1, nl=rng.choice([1, 2]), minpts=[6, 40, 8][i % 3], thick=[(0.2, 0.8), (0.1, 0.4), (1.5, 4.0)][i % 3], pml=[(0.8, 2.0), (0.8, 2.0), (3.0, 6.0)][i % 3])
        d["niter"] = [rng.choice([1010, 1300]), 220, 260][i % 3]
        out.append(d)
    for i in range(2 if tier == "quick" else 30):  # many wavelengths
        d = draw(rng, pulse=["hanning", "continuous", "ricker"][i % 3], nf=rng.choice([17, 18, 21]), nl=rng.choice([1, 2]), minpts=rng.choice([6, 8]), thick=(0.3, 0.8), k=1)
        d["niter"] = 90
        out.append(d)
    return out[::-1]


def run(d):
    import nidn, torch

    e = perm(d)
    c = config(d)
    p, margin, s = F.positions(d)
    from loguru import logger

    given = [float(x) for x in c.PER_LAYER_THICKNESS]
    heard = []
    sink = logger.add(lambda x: heard.append(str(x.record["message"])), level="WARNING", format="{message}")
    try:
        with GridMonitor() as m:
            R, T = nidn.compute_spectrum(torch.tensor(e)[None, None], c)
    finally:
        logger.remove(sink)
    require(len(R) == d["nf"] and len(T) == d["nf"], f"{len(R)}/{len(T)} values for {d['nf']} wavelengths")
    lams = wavelengths(d)
    o = Obs()
    o.nontrivial = False
    # each wavelength: one free-space and one material run
    o.add("grids observed", len(m.grids))
    refs = []
    for i, lam in enumerate(lams):
        refs.append([F.simulate(d, lam, None), F.simulate(d, lam, list(e[:, i]))])
    records = []
    for g in m.grids:
        dets = sorted(g.detectors, key=lambda q: -float(np.mean(arr(q.x))))
        require(len(dets) == 2, f"{len(dets)} detectors in the grid instead of 2")
        records.append([(arr(q.detector_values()["E"]), arr(q.detector_values()["H"])) for q in dets])
    # line up the recorded runs with the reference runs (order of the runs is not prescribed)
    tol = 3e-7 if d["pulse"] != "ricker" else 3e-6
    free = list(range(len(records)))
    for i in range(d["nf"]):
        for j in range(2):
            E, H = refs[i][j]
            best, bi = None, None
            for r in free:
                if any(x[0].shape != E[:, 0].shape for x in records[r]):
                    continue
                err = max(max(np.abs(records[r][k][0] - E[:, k]).max(), np.abs(records[r][k][1] - H[:, k]).max()) for k in range(2))
                if best is None or err < best:
                    best, bi = err, r
            what = "material" if j else "free-space"
            require(
                best is not None and best <= tol,
                f"no recorded {what} run at wavelength {lams[i]:.6f} um matches the configured geometry (closest field deviation {best}, tolerance {tol}; "
                f"record shapes {[x[0][0].shape for x in records]}, expected {E[:, 0].shape}; positions {p})",
            )
            if j:
                free.remove(bi)  # every wavelength needs a material run of its own
            o.add("field samples compared", 2 * (E.size + H.size) // 2)
            o.peak("field deviation", best)
        diff = np.abs(refs[i][1][0] - refs[i][0][0]).max()
        o.nontrivial = o.nontrivial or diff > 1e-3
        if d["pulse"] == "continuous":
            sig = [refs[i][a][0][:, b, :, 2].mean(1) for a, b in ((0, 0), (1, 0), (0, 1), (1, 1))]
            try:
                t, r = F.coefficients(*sig, lams[i], d["minpts"])
            except F.Ambiguous as ex:
                o.add("coefficients not judged: " + str(ex))
                continue
            tr, tt = num(R[i]), num(T[i])
            rel = 2e-5
            require(
                abs(tr - r) <= 1e-7 + rel * abs(r) and abs(tt - t) <= 1e-7 + rel * abs(t),
                f"wavelength {lams[i]:.6f} um: returned R={tr!r} T={tt!r}, from the configured geometry R={r!r} T={t!r}",
            )
            o.add("coefficients compared", 2)
            o.peak("coefficient deviation", max(abs(tr - r) / (1e-7 + rel * abs(r)), abs(tt - t) / (1e-7 + rel * abs(t))))
    # too few steps to settle are reported with the number that is needed
    numbers = [int(x) for h in heard for x in re.findall(r"(?<![\w.])\d+(?![\w.]*\d)", h)]
    for i, lam in enumerate(lams):
        need = (d["fs"] + 3 * sum(d["thick_full"]) * np.sqrt(e[:, i].real.max()) + 5 * lam) * np.sqrt(2) * s
        told = any(abs(x - need) <= 2 for x in numbers)
        if d["niter"] < 0.97 * need:
            require(told, f"{d['niter']} steps at wavelength {lam:.4f} um need {need:.0f}, which is not reported ({heard[:2]})")
            o.add("reports of too few steps")
        elif d["nf"] == 1 and d["niter"] > 1.03 * need:
            require(not told, f"{d['niter']} steps at wavelength {lam:.4f} um suffice ({need:.0f}), but are reported as too few")
            o.add("sufficient steps")
    # thicknesses that the grid cannot hold are reported with the number of the layer and the thickness simulated
    if len(given) == d["nl"]:
        for i, t in enumerate(given):
            got = (p["edges"][i + 1] - p["edges"][i]) / s
            if abs(got - t) > 2e-3:
                told = [[float(x) for x in re.findall(r"\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", h)] for h in heard]
                require(any(i + 1 in x and any(abs(v - got) < 1.1e-3 for v in x) for x in told), f"layer {i + 1} of {t} um is simulated with {got:.4f} um, which is not reported ({heard[:6]})")
                o.add("thicknesses reported")
    o.seen("source/signal", d["source"] + "/" + d["pulse"])
    o.seen("layers", d["nl"])
    o.seen("grid size", p["size"])
    o.sample = {"R": nums(R), "T": nums(T), "positions": p}
    return o
