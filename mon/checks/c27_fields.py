"""C27: electromagnetic fields inside a structure (RCWA class), judged by Maxwell's equations and their boundary conditions."""
import numpy as np
from mon.core import Obs, require, Skip
from mon.util import *
from mon.ref.optics import _conv
from mon import rcwacase as K

PROPERTY = "C27"
RULE = (
    "Random structures of 1-3 uniform, patterned, mixed or diagonally anisotropic layers, any direction of incidence, polarisation, side of illumination and incident order, on fresh objects and on ones set up and asked differently before. The fields returned in every layer are observed at "
    "random depths and judged by axioms: Maxwell's equations in every layer (depth derivatives by differences), continuity of tangential fields at every interface, the prescribed incident and no other incoming "
    "wave in the outer media, reflected and transmitted powers, depth integrals by quadrature of the fields, absorbed power against the loss of power flow, fields on grids and permittivity profiles against "
    "Fourier sums, stress tensor, mode amplitudes of uniform layers. Non-trivial: fields vary by > 1e-3 within the structure; distinct by case."
)
ASSUMPTIONS = [
    "tolerance 2e-6 of the largest field (times the largest wavenumber for derivatives), raised in proportion to the observed discontinuity allowed by the conditioning of the layer's eigenvectors",
    "orders within 1e-3 of grazing are not split into up- and down-going waves",
]
BUDGET = {"quick": 30, "thorough": 700}
REQUIRED = {"field points": 300, "interfaces": 60, "integrals": 30, "grids": 20, "profiles": 20, "incident in another order": 8}

XG, WG = np.polynomial.legendre.leggauss(16)


def cases(rng, tier):
    n = 240 if tier == "quick" else 4000
    out = []
    for i in range(n):
        d = K.draw(rng, i, small=True)
        d["back"] = i % 4 == 2
        d["gmethod"] = int(i % 9 == 4)
        d["order"] = rng.randrange(1, 12) if i % 5 == 3 else 0  # the incident wave may be any of the orders
        if d["theta"] == 0.0 and i % 3:
            d["theta"] = rnd(rng, 0.05, 1.2)
        out.append(d)
    return out


def arr(x):
    return np.asarray(x.detach() if hasattr(x, "detach") else x)


def quadrature(t):
    """nodes and weights, dense near both ends (evanescent modes)"""
    e = np.array([0, 0.01, 0.04, 0.12, 0.35, 0.65, 0.88, 0.96, 0.99, 1.0]) * t
    z = np.concatenate([(b - a) / 2 * XG + (a + b) / 2 for a, b in zip(e[:-1], e[1:])])
    w = np.concatenate([(b - a) / 2 * WG for a, b in zip(e[:-1], e[1:])])
    return z, w


def run(d):
    import torch

    o = Obs()
    layers, thick, g = K.structure(d)
    ob = K.build(d, layers, thick, direction="backward" if d["back"] else "forward", gmethod=d["gmethod"])
    G = K.orders(ob)
    n = len(G)
    w = 2 * np.pi * d["freq"]
    L = np.array(d["L"]) * d["scale"]
    B = np.linalg.inv(L).T
    k0 = w * np.sqrt(d["top"]) * np.sin(d["theta"]) * np.array([np.cos(d["phi"]), np.sin(d["phi"])])
    k = k0 + 2 * np.pi * (np.array(G) @ B)
    kx, ky = k[:, 0], k[:, 1]
    I = np.eye(n)
    eps = [complex(d["top"])] + layers + [complex(d["bot"])]
    t = d["outer"][:1] + thick + d["outer"][1:]

    def conv(x):
        return complex(x) * I if np.ndim(x) == 0 else _conv(np.asarray(x, complex), G)

    triples = [tuple(conv(y) for y in x) if isinstance(x, tuple) else (conv(x),) * 3 for x in eps]
    inverse = [np.linalg.inv(x[2]) for x in triples]

    def field(l, zs):
        """[z, E/H, component, order]"""
        return np.array([[[arr(c) for c in y] for y in f] for f in ob.Solve_FieldFourier(l, [float(z) for z in zs])])

    # ---- fields obey Maxwell's equations in every layer
    amp = np.hypot(K.amps(d)[0][0], K.amps(d)[1][0])
    if amp < 1e-3:
        raise Skip("no light")
    ends, worst = [], 0.0
    grad = max(np.sqrt(np.abs(kx) ** 2 + np.abs(ky) ** 2).max(), w * np.sqrt(max(np.abs(x).max() for tr in triples for x in tr)), w)
    h = 2e-3 / grad
    stencil = np.array([-2, -1, 0, 1, 2]) * h
    inside = []
    for l in range(len(eps)):
        zs = np.sort(g.uniform(0, t[l], 2))
        F = field(l, np.concatenate([[0.0, t[l]]] + [z + stencil for z in zs]))
        require(np.all(np.isfinite(F)), f"field of layer {l} is not finite")
        ends.append((F[0], F[1]))
        inside += [(l, z, F[2 + 5 * i : 7 + 5 * i]) for i, z in enumerate(zs)]
    size = max(np.abs(x).max() for p in ends for x in p)
    # ill-conditioned eigenvectors of a patterned layer limit the accuracy of any solution
    cond = max([np.linalg.cond(arr(x)) for x in getattr(ob, "phi_list", [])] + [1])
    tol = 2e-6 + 1e-12 * cond
    if tol > 1e-3:
        raise Skip("ill-conditioned")
    tag = f"theta={d['theta']} phi={d['phi']} {d['pol']}{' from the back' if d['back'] else ''}"
    for l, z, F in inside:
        (ex, ey, ez), (hx, hy, hz) = F[2]
        dz = (F[0] - 8 * F[1] + 8 * F[3] - F[4]) / (12 * h)
        D = [m @ v for m, v in zip(triples[l], (ex, ey, ez))]
        eqs = {
            "Ez": ez - inverse[l] @ ((ky * hx - kx * hy) / w),
            "Hz": hz - (kx * ey - ky * ex) / w,
            "dEx/dz": (dz[0][0] - 1j * kx * ez - 1j * w * hy) / grad,
            "dEy/dz": (dz[0][1] - 1j * ky * ez + 1j * w * hx) / grad,
            "dHx/dz": (dz[1][0] - 1j * kx * hz + 1j * w * D[1]) / grad,
            "dHy/dz": (dz[1][1] - 1j * ky * hz - 1j * w * D[0]) / grad,
        }
        for name, v in eqs.items():
            e = np.abs(v).max() / size
            worst = max(worst, e / tol)
            require(e <= tol, f"{tag}, layer {l} at depth {z:.4f}: Maxwell's equation for {name} is violated by {e:.2e} of the field")
        o.add("field points")
    # ---- tangential fields are continuous
    for l in range(len(eps) - 1):
        a, b = ends[l][1][:, :2], ends[l + 1][0][:, :2]
        e = np.abs(a - b).max() / size
        worst = max(worst, e / tol)
        require(e <= tol, f"{tag}: tangential fields jump by {e:.2e} between layers {l} and {l + 1}")
        o.add("interfaces")
    # ---- incoming waves
    (sa, sp), (pa, pp) = K.amps(d)
    s, p = sa * np.exp(1j * sp), pa * np.exp(1j * pp)
    u, v = np.array([np.cos(d["phi"]), np.sin(d["phi"])]), np.array([-np.sin(d["phi"]), np.cos(d["phi"])])
    hin = -s * np.cos(d["theta"]) * u + p * v
    power = {}
    for l, F, up in ((0, ends[0][0], False), (len(eps) - 1, ends[-1][1], True)):
        e_ = eps[l]
        q = np.sqrt(e_ * w**2 - kx**2 - ky**2 + 0j)
        q = np.where(q.imag < 0, -q, q)
        tot = 0.0
        for i in range(n):
            if abs(q[i]) < 1e-3 * w:
                tot = None
                continue
            x, y, z = kx[i], ky[i], q[i]
            Z = np.array([[x * y, z * z + y * y], [-(z * z + x * x), -x * y]]) / (w * e_ * z)
            Et, Ht = F[0][:2, i], F[1][:2, i]
            r = np.linalg.solve(Z, Et)
            fw, bw = (Ht + r) / 2, (Ht - r) / 2
            inc, out = (bw, fw) if up else (fw, bw)
            lit = i == d.get("order", 0) % n and up == d["back"]
            want = hin if lit else np.zeros(2)
            lim = tol * size * max(1, w / abs(z))
            o.peak("incoming error/tolerance", np.abs(inc - want).max() / lim)
            if lit and abs(z.imag) > 0:
                tot = None  # evanescent illumination: no separate powers
            require(np.abs(inc - want).max() <= lim, f"{tag}: incoming wave of order {G[i]} in the {'last' if up else 'first'} layer is {inc}, expected {want}")
            o.add("outgoing waves")
            if tot is not None and abs(e_.imag) == 0:
                E = Z @ out
                tot += np.real(E[0] * np.conj(out[1]) - E[1] * np.conj(out[0]))
        power[up] = tot
    R, T = [num(x) for x in ob.RT_Solve()]
    if d["back"]:
        R, T = T, R
    for got, up, name in ((R, False, "first"), (T, True, "last")):
        if power[up] is not None:
            o.peak("power error/tolerance", abs(got - abs(power[up])) / (2 * tol * size**2))
            require(abs(got - abs(power[up])) <= 2 * tol * size**2, f"{tag}: RT_Solve gives {got:.8f} leaving into the {name} layer, its fields carry {abs(power[up]):.8f}")
            o.add("powers")

    # ---- depth integrals
    def flux(F):
        (ex, ey, _), (hx, hy, _) = F
        return float(np.sum((ex * np.conj(hy) - ey * np.conj(hx)).real))

    for l in range(len(eps)):
        zs, ws = quadrature(t[l])
        F = field(l, zs)
        M = [_rand(g, n) for _ in range(3)]
        got = complex(ob.Volume_integral(l, *[torch.tensor(m) for m in M]))
        want = sum(wi * sum(np.conj(f[0][c]) @ M[c] @ f[0][c] for c in range(3)) for wi, f in zip(ws, F))
        unit = n * size**2 * (t[l] + 0.05)
        o.peak("integral error/tolerance", abs(got - want) / (tol * unit))
        require(abs(got - want) <= tol * unit, f"{tag}: integral over layer {l} is {got}, quadrature of its fields gives {want}")
        absorb = [conv(np.asarray(x).imag) if np.ndim(x) else complex(x).imag * I for x in (eps[l] if isinstance(eps[l], tuple) else (eps[l],) * 3)]
        val = complex(ob.Volume_integral(l, *[torch.tensor(m + 0j) for m in absorb], normalize=1)) * w
        loss = (flux(ends[l][0]) - flux(ends[l][1])) * np.sqrt(d["top"]) / np.cos(d["theta"])
        f = np.sqrt(d["top"]) / np.cos(d["theta"])
        bound = tol * (w * unit + n * size**2) * f
        o.peak("absorption error/tolerance", abs(val - loss) / bound)
        require(abs(val - loss) <= bound, f"{tag}: power absorbed in layer {l} is {val}, the power flow decreases by {loss}")
        o.add("integrals")
        o.add("absorbing layers", int(abs(loss) > 100 * bound))
    # ---- real space
    for l in sorted(set(int(x) for x in g.integers(0, len(eps), 2))):
        patterned = isinstance(eps[l], tuple) or np.ndim(eps[l]) > 0
        own = patterned and g.random() < 0.5
        need = [2 * max(abs(x[a]) for x in G) + 1 for a in (0, 1)]
        N = list(np.shape(eps[l])[-2:]) if own else [max(need[0], int(g.integers(3, 9))), max(need[1], int(g.integers(3, 9)))]
        wave = np.array([np.exp(2j * np.pi * (a * np.arange(N[0])[:, None] / N[0] + b * np.arange(N[1]) / N[1])) for a, b in G])
        zs = [float(x) for x in g.uniform(0, t[l], 2)]
        single = ob.Solve_FieldOnGrid(l, zs[0], *([] if own else [N]))
        many = ob.Solve_FieldOnGrid(l, zs, *([] if own else [N]))
        ref = field(l, zs)
        whole = ob.Solve_FieldOnGrid(l, 0, *([] if own else [N]))
        zero = ob.Solve_FieldOnGrid(l, 0.0, *([] if own else [N]))
        require(len(whole) == 2 and all(np.array_equal(arr(whole[a][c]), arr(zero[a][c])) for a in (0, 1) for c in range(3)), f"layer {l}: the fields at depth 0 and at depth 0.0 differ")
        require(len(single) == 2 and len(many) == 2, f"layer {l}: fields at one depth have {len(single)} parts, at two depths {len(many)}")
        for j, got in enumerate([single] + list(many)):
            f = ref[max(j - 1, 0)]
            for a in (0, 1):
                for c in range(3):
                    x = arr(got[a][c])
                    require(x.shape == tuple(N), f"layer {l}: grid field has shape {x.shape}, not {N}")
                    e = np.abs(x - np.tensordot(f[a][c], wave, 1)).max() / size
                    require(e <= 1e-9 * n, f"{tag}, layer {l}: {'EH'[a]}{'xyz'[c]} on a grid of {N} differs from its Fourier sum by {e:.2e}")
        o.add("grids", 3)
        for name, c in (("xx", 0), ("yy", 1), ("zz", 2), ("xy", None), ("yx", None)):
            if not patterned and c is None:
                continue
            x = arr(ob.Return_eps(l, *N, component=name))
            want = np.tensordot(np.zeros(n) if c is None else triples[l][c][:, 0], wave, 1)
            require(x.shape == tuple(N) and np.abs(x - want).max() <= 1e-7 * np.abs(np.concatenate(triples[l])).max(), f"layer {l}: permittivity profile {name} differs from its truncated Fourier series by {np.abs(x - want).max():.2e}")
            o.add("profiles")
    # ---- momentum flow, mode amplitudes
    for l in range(len(eps)):
        f = ends[l][0]
        (ex, ey, ez), (hx, hy, hz) = f
        D = [m @ v for m, v in zip(triples[l], f[0])]
        want = [
            np.real(np.sum(ex * np.conj(D[2]) + hx * np.conj(hz))),
            np.real(np.sum(ey * np.conj(D[2]) + hy * np.conj(hz))),
            0.5 * np.real(np.sum(ez * np.conj(D[2]) + hz * np.conj(hz) - ex * np.conj(D[0]) - ey * np.conj(D[1]) - abs(hx) ** 2 - abs(hy) ** 2)),
        ]
        got = [num(x) for x in ob.Solve_ZStressTensorIntegral(l)]
        unit = size**2 * max(1, max(np.abs(x).max() for x in triples[l]))
        o.peak("stress error/tolerance", np.abs(np.array(got) - want).max() / (tol * unit))
        require(np.abs(np.array(got) - want).max() <= tol * unit, f"{tag}: stress through layer {l} is {got}, its fields give {want}")
        o.add("stress integrals")
        if not isinstance(eps[l], tuple) and np.ndim(eps[l]) == 0:
            z = float(g.uniform(0, t[l]))
            a, b = [arr(x) for x in ob.GetAmplitudes(l, z)]
            H = np.concatenate(field(l, [z])[0][1][:2])
            require(np.abs(a + b - H).max() <= tol * size, f"{tag}: mode amplitudes of uniform layer {l} do not add up to the magnetic field")
            q = np.sqrt(eps[l] * w**2 - kx**2 - ky**2 + 0j)
            q = np.tile(np.where(q.imag < 0, -q, q), 2)
            a0, b0 = [arr(x) for x in ob.GetAmplitudes_noTranslate(l)]
            # the frequency (and its square) is known to single precision, which grazing waves magnify
            slack = tol + 5e-7 * abs(eps[l]) * w**2 / np.maximum(np.abs(q), 1e-6 * w) * t[l]
            e = (np.maximum(np.abs(a0 * np.exp(1j * q * z) - a), np.abs(b0 * np.exp(1j * q * (t[l] - z)) - b)) / size / slack).max()
            require(e <= 1, f"{tag}: amplitudes of layer {l} at depth {z} are not the travelled amplitudes at its faces ({e:.1e} of the tolerance)")
            o.add("mode amplitudes")
    o.peak("error/tolerance", worst)
    o.peak("log10 condition", float(np.log10(cond)))
    o.add("from the back", int(d["back"]))
    o.add("incident in another order", int(d.get("order", 0) % n > 0))
    o.seen("structure", f"{d['kind']}/{d['nl']}/{d['shape']}")
    o.nontrivial = bool(max(np.abs(a - b).max() for a, b in ends[1:-1]) > 1e-3 * size)
    o.sample = {"R": R, "T": T, "largest field": float(size)}
    return o


def _rand(g, n):
    return g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
