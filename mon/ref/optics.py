"""Independent reference solutions (numpy only, no code of the repository).

tmm:  exact normal-incidence reflectance/transmittance of a stack of homogeneous layers.
rcwa: Fourier-modal solution of a stack of periodic layers, E-field formulation with
      vacuum-gap scattering matrices and Redheffer products (the repository uses an
      H-field formulation with interface transfer matrices).
"""
import numpy as np

QABS = 1e5  # documented relaxation of the solver: freq -> freq * (1 + i/(2 Q))


def tmm(freq, eps, thick, eps_top=1.0, eps_bot=1.0, q_abs=QABS, omega_scale=1.0):
    """R, T for one frequency (1/um).  eps, thick: layers from the illuminated side on."""
    w = 2 * np.pi * freq * (1 + 0.5j / q_abs) * omega_scale

    def q_of(e):
        q = np.sqrt(complex(e) * w * w + 0j)
        return -q if q.imag < 0 else q

    q = [q_of(eps_top)] + [q_of(e) for e in eps] + [q_of(eps_bot)]
    d = [1.0] + list(thick)
    # admittance recursion from the exit side:  y = H/E at the front of the remaining stack
    # with E continuous and H ~ (q/w) E for a forward wave
    # reflection coefficient of E at each interface, propagated back (stable: only |exp|<=1)
    r = 0j
    t = 1 + 0j
    for j in range(len(q) - 2, -1, -1):
        yj, yn = q[j], q[j + 1]
        rij = (yj - yn) / (yj + yn)
        tij = 2 * yj / (yj + yn)
        den = 1 + rij * r
        t = tij * t / den
        r = (rij + r) / den
        p = np.exp(1j * q[j] * d[j])
        # the cover's backward amplitude is taken at the first interface, its forward one at the
        # far side of the (thickness 1) cover: one pass through the cover for R and for T
        r = r * p * p if j > 0 else r * p
        t = t * p
    n0 = q[0] / w
    nb = q[-1] / w
    R = abs(r) ** 2
    T = abs(t) ** 2 * (nb.real / n0.real)
    return float(R), float(T)


def tmm_tol(freq, eps, thick, eps_top, eps_bot, base=1e-7):
    """Reference plus a conditioning-based tolerance: the solver's angular frequency carries a
    single-precision pi (relative error < 1.2e-7), so the tolerance is what such a shift does."""
    R, T = tmm(freq, eps, thick, eps_top, eps_bot)
    dR = dT = 0.0
    for s in (1 - 4e-7, 1 - 1e-7, 1 + 1e-7, 1 + 4e-7):
        a, b = tmm(freq, eps, thick, eps_top, eps_bot, omega_scale=s)
        dR, dT = max(dR, abs(a - R)), max(dT, abs(b - T))
    return R, T, base + 3 * dR, base + 3 * dT


def gset(NG, L1, L2):
    """Circular truncation: all complete shells of reciprocal vectors, strictly fewer than NG orders
    (at least the zero order)."""
    d = L1[0] * L2[1] - L1[1] * L2[0]
    k1 = np.array([L2[1] / d, -L2[0] / d])
    k2 = np.array([-L1[1] / d, L1[0] / d])
    M = int(np.ceil(NG)) + 2
    g = [(i, j) for i in range(-M, M + 1) for j in range(-M, M + 1)]
    len2 = {p: float(np.sum((p[0] * k1 + p[1] * k2) ** 2)) for p in g}
    tol = 1e-9 * max(k1 @ k1, k2 @ k2)
    order = sorted(g, key=lambda p: len2[p])
    shells = []
    for p in order:
        if shells and abs(len2[p] - shells[-1][0]) <= tol:
            shells[-1][1].append(p)
        else:
            shells.append((len2[p], [p]))
    out = list(shells[0][1])
    for _, s in shells[1:]:
        if len(out) + len(s) >= NG:
            break
        out += s
    return out, k1, k2


def _conv(grid, G):
    Nx, Ny = grid.shape
    # plain sum definition of the Fourier coefficients of the sampled cell
    F = {}
    ax = np.arange(Nx)
    ay = np.arange(Ny)
    n = len(G)
    C = np.zeros((n, n), complex)
    for a in range(n):
        for b in range(n):
            dx, dy = G[a][0] - G[b][0], G[a][1] - G[b][1]
            if (dx, dy) not in F:
                ex = np.exp(-2j * np.pi * dx * ax / Nx)
                ey = np.exp(-2j * np.pi * dy * ay / Ny)
                F[dx, dy] = ex @ grid @ ey / (Nx * Ny)
            C[a, b] = F[dx, dy]
    return C


def _star(A, B):
    I = np.eye(A[0].shape[0])
    D = A[1] @ np.linalg.inv(I - B[0] @ A[3])
    F = B[2] @ np.linalg.inv(I - A[3] @ B[0])
    return (A[0] + D @ B[0] @ A[2], D @ B[1], F @ A[2], B[3] + F @ A[3] @ B[1])


def rcwa(freq, layers, thick, L1, L2, NG, eps_top=1.0, eps_bot=1.0, q_abs=QABS, pol="y", omega_scale=1.0, oblique=None, G=None):
    """R, T. layers: list of complex arrays [Nx,Ny], triples of such arrays (xx, yy, zz) or scalars, illuminated side first.
    pol: direction of the incident electric field ('y' or 'x').
    oblique = (theta, phi, s, p): instead a plane wave from that direction with complex amplitudes s (electric field
    perpendicular to the plane of incidence) and p; then R and T are arrays over the orders G, relative to a wave of
    amplitude 1, and the orders are returned, too."""
    w = 2 * np.pi * freq * ((1 + 0.5j / q_abs) if q_abs < 1e200 else 1.0) * omega_scale
    G_, k1, k2 = gset(NG, L1, L2)
    G = G_ if G is None else [tuple(g) for g in G]
    n = len(G)
    zero = G.index((0, 0))
    n0 = np.sqrt(complex(eps_top))
    th, ph, sa, pa = oblique if oblique else (0.0, 0.0, 1.0, 0.0)
    k0 = n0 * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    K = k0 + np.array([g[0] * k1 + g[1] * k2 for g in G]) * 2 * np.pi / w
    kx, ky = np.diag(K[:, 0].astype(complex)), np.diag(K[:, 1].astype(complex))
    I = np.eye(n)
    Z = np.zeros((n, n))

    def PQ(C, Ci, Cx=None):
        P = np.block([[kx @ Ci @ ky, I - kx @ Ci @ kx], [ky @ Ci @ ky - I, -ky @ Ci @ kx]])
        Q = np.block([[kx @ ky, C - kx @ kx], [ky @ ky - (C if Cx is None else Cx), -ky @ kx]])
        return P, Q

    # modes ~ exp(lam * w * z); lam^2 = eig(P Q); forward: decaying / +z
    def homog(e):
        kz = np.sqrt(complex(e) - np.diag(kx) ** 2 - np.diag(ky) ** 2 + 0j)
        kz = np.where((kz * w).imag < 0, -kz, kz)
        lam = 1j * np.concatenate([kz, kz])
        Q = PQ(complex(e) * I, I / complex(e))[1]
        W = np.eye(2 * n, dtype=complex)
        V = Q @ np.diag(1 / lam)
        return W, V, lam

    def conv(x):
        return complex(x) * I if np.ndim(x) == 0 else _conv(np.asarray(x, complex), G)

    def aniso(t):
        P, Q = PQ(conv(t[1]), np.linalg.inv(conv(t[2])), conv(t[0]))
        return modes(P, Q)

    def patt(grid):
        C = _conv(np.asarray(grid, complex), G)
        return modes(*PQ(C, np.linalg.inv(C)))

    def modes(P, Q):
        l2, W = np.linalg.eig(P @ Q)
        lam = np.sqrt(l2 + 0j)
        # exp(lam w z) must not grow for complex w: choose Re(lam*w) <= 0
        lam = np.where((lam * w).real > 0, -lam, lam)
        V = Q @ W @ np.diag(1 / lam)
        return W, V, lam

    W0, V0, _ = homog(1.0 + 1e-3)  # gap medium

    def layer_s(W, V, lam, d):
        Wi = np.linalg.solve(W, W0)
        Vi = np.linalg.solve(V, V0)
        A, B = Wi + Vi, Wi - Vi
        X = np.diag(np.exp(lam * w * d))
        Ai = np.linalg.inv(A)
        D = np.linalg.inv(A - X @ B @ Ai @ X @ B)
        S11 = D @ (X @ B @ Ai @ X @ A - B)
        S12 = D @ X @ (A - B @ Ai @ B)
        return S11, S12, S12, S11

    N2 = 2 * n
    S = (np.zeros((N2, N2), complex), np.eye(N2, dtype=complex), np.eye(N2, dtype=complex), np.zeros((N2, N2), complex))
    for g, d in zip(layers, thick):
        m = aniso(g) if isinstance(g, tuple) else patt(g) if np.ndim(g) == 2 else homog(g)
        S = _star(S, layer_s(*m, d))
    # reflection side
    Wr, Vr, lr = homog(eps_top)
    A = np.linalg.solve(W0, Wr) + np.linalg.solve(V0, Vr)
    B = np.linalg.solve(W0, Wr) - np.linalg.solve(V0, Vr)
    Ai = np.linalg.inv(A)
    Sr = (-Ai @ B, 2 * Ai, 0.5 * (A - B @ Ai @ B), B @ Ai)
    Wt, Vt, lt = homog(eps_bot)
    A = np.linalg.solve(W0, Wt) + np.linalg.solve(V0, Vt)
    B = np.linalg.solve(W0, Wt) - np.linalg.solve(V0, Vt)
    Ai = np.linalg.inv(A)
    St = (B @ Ai, 0.5 * (A - B @ Ai @ B), 2 * Ai, -Ai @ B)
    S = _star(_star(Sr, S), St)
    inc = np.zeros(N2, complex)
    if oblique:
        e = (sa * np.array([-np.sin(ph), np.cos(ph)]) + pa * np.cos(th) * np.array([np.cos(ph), np.sin(ph)])) / n0
        inc[zero], inc[n + zero] = e
    else:
        inc[n + zero if pol == "y" else zero] = 1.0
    # the cover of the solver has thickness 1 (amplitudes are defined at its far side)
    X = np.exp(lr * w * 1.0)
    r = S[0] @ (X * inc)
    t = S[2] @ (X * inc)

    def power(W, V, c, sgn):
        e = W @ c
        h = sgn * (V @ c)
        # S_z ~ Re(Ex conj(Hy) - Ey conj(Hx)) with H scaled by i
        ex, ey = e[:n], e[n:]
        hx, hy = h[:n] * 1j, h[n:] * 1j
        return np.real(ex * np.conj(hy) - ey * np.conj(hx))

    if oblique:
        unit = (np.cos(th) / n0).real
        sg = np.sign(power(Wr, Vr, inc, 1)[zero])
        return -sg * power(Wr, -Vr, r, 1) / unit, sg * power(Wt, Vt, t, 1) / unit, G
    power_ = power
    power = lambda *a: float(np.sum(power_(*a)))
    p0 = power(Wr, Vr, inc, 1)
    return abs(power(Wr, Vr, r, 1)) / abs(p0), power(Wt, Vt, t, 1) / p0
