"""Independent Yee scheme (numpy) with CPML slabs, periodic walls, lossy dielectrics and soft sources.

Fields in the units of the simulator (E and H scaled so that only the Courant number appears).
One step:  E update (curl H, loss) -> boundaries -> sources -> record E -> H update -> boundaries -> record H.
"""
import numpy as np

# (component, derivative axis, other component, sign) of a curl
CURL = [(0, 1, 2, +1), (0, 2, 1, -1), (1, 2, 0, +1), (1, 0, 2, -1), (2, 0, 1, +1), (2, 1, 0, -1)]


def _dh(F, ax):
    """backward difference, zero at the first index (H -> E)."""
    d = np.zeros_like(F)
    s1, s0 = [slice(None)] * 3, [slice(None)] * 3
    s1[ax], s0[ax] = slice(1, None), slice(None, -1)
    d[tuple(s1)] = F[tuple(s1)] - F[tuple(s0)]
    return d


def _de(F, ax):
    """forward difference, zero at the last index (E -> H)."""
    d = np.zeros_like(F)
    s1, s0 = [slice(None)] * 3, [slice(None)] * 3
    s1[ax], s0[ax] = slice(1, None), slice(None, -1)
    d[tuple(s0)] = F[tuple(s1)] - F[tuple(s0)]
    return d


class Pml:
    def __init__(self, axis, side, n, shape, courant, a=1e-8):
        self.axis, self.side, self.n = axis, side, n
        self.sl = [slice(None)] * 3
        self.sl[axis] = slice(0, n) if side == "low" else slice(shape[axis] - n, shape[axis])
        self.sl = tuple(self.sl)
        k = np.arange(n)
        dE = n - 0.5 - k if side == "low" else k + 0.5
        dH = (n - 1.0 - k if side == "low" else k + 1.0).astype(float)
        sE = 40 * dE**3 / (n + 1) ** 4
        sH = 40 * dH**3 / (n + 1) ** 4
        sH[-1] = 0.0
        sh = [1, 1, 1]
        sh[axis] = n

        def coef(s):
            b = np.exp(-(s + a) * courant)
            return b.reshape(sh), ((b - 1) * s / (s + a)).reshape(sh)

        self.bE, self.cE = coef(sE)
        self.bH, self.cH = coef(sH)
        loc = list(shape)
        loc[axis] = n
        self.psiE = {c: np.zeros(loc) for c in range(3) if c != axis}
        self.psiH = {c: np.zeros(loc) for c in range(3) if c != axis}

    def pre_E(self, H):
        for c, ax, oc, s in CURL:
            if ax == self.axis:
                self.psiE[c] = self.bE * self.psiE[c] + s * self.cE * _dh(H[self.sl][..., oc], ax)

    def post_E(self, y):
        for c, p in self.psiE.items():
            y.E[self.sl][..., c] += y.courant * y.inv_eps[self.sl][..., c] * p

    def pre_H(self, E):
        for c, ax, oc, s in CURL:
            if ax == self.axis:
                self.psiH[c] = self.bH * self.psiH[c] + s * self.cH * _de(E[self.sl][..., oc], ax)

    def post_H(self, y):
        for c, p in self.psiH.items():
            y.H[self.sl][..., c] -= y.courant * y.inv_mu * p


class Periodic:
    def __init__(self, axis):
        self.axis = axis

    def pre_E(self, H):
        pass

    pre_H = pre_E

    def _sl(self, i):
        s = [slice(None)] * 3
        s[self.axis] = i
        return tuple(s)

    def post_E(self, y):
        y.E[self._sl(0)] = y.E[self._sl(-1)]

    def post_H(self, y):
        y.H[self._sl(-1)] = y.H[self._sl(0)]


class Yee:
    def __init__(self, shape, courant, eps=1.0, mu=1.0):
        self.shape = tuple(shape)
        self.courant = courant
        self.E = np.zeros(self.shape + (3,))
        self.H = np.zeros(self.shape + (3,))
        self.inv_eps = np.full(self.shape + (3,), 1.0 / eps)
        self.inv_mu = 1.0 / mu
        self.loss = np.zeros(self.shape + (3,))
        self.bounds = []
        self.sources = []  # f(q) -> list of (x, y, z, component, value)
        self.q = 0
        self.watch = []  # index tuples
        self.log_E, self.log_H = [], []

    def step(self):
        for b in self.bounds:
            b.pre_E(self.H)
        curl = np.zeros_like(self.E)
        for c, ax, oc, s in CURL:
            curl[..., c] += s * _dh(self.H[..., oc], ax)
        self.E = (self.E * (1 - self.loss) + self.courant * self.inv_eps * curl) / (1 + self.loss)
        for b in self.bounds:
            b.post_E(self)
        for f in self.sources:
            for x, y, z, c, v in f(self.q):
                self.E[x, y, z, c] += v
        self.log_E.append([self.E[w].copy() for w in self.watch])
        for b in self.bounds:
            b.pre_H(self.E)
        curl = np.zeros_like(self.H)
        for c, ax, oc, s in CURL:
            curl[..., c] += s * _de(self.E[..., oc], ax)
        self.H = self.H - self.courant * self.inv_mu * curl
        for b in self.bounds:
            b.post_H(self)
        self.log_H.append([self.H[w].copy() for w in self.watch])
        self.q += 1

    def run(self, n):
        for _ in range(n):
            self.step()


def hanning(f, t, n):
    return 0.5 * (1 - np.cos(f * t / n)) * np.sin(f * t)


def waveform(kind, freq, period_steps, gppw, courant, cycle=5, dt=1e-15, phase=0.0):
    """Signal value at step q: continuous sine, windowed burst or Ricker wavelet."""

    def cont(q):
        return np.sin(2 * np.pi * q / period_steps + phase)

    def han(q):
        return hanning(freq, q * dt, cycle) if q < int(2 * np.pi / (freq * dt / cycle)) else 0.0

    def ricker(q):
        if not q < 6 * gppw:
            return 0.0
        v = (np.pi * (q * courant / gppw - 1)) ** 2
        return (1 - 2 * v) * np.exp(-v)

    return {"continuous": cont, "hanning": han, "ricker": ricker}[kind]


def line_profile(cells):
    """normalised profile of a line source over its cells, or n cells in a row (weights fall off from the middle one)"""
    c = np.array(cells, float) if np.ndim(cells) else np.arange(cells, dtype=float)[:, None]
    d2 = ((c - c[len(c) // 2]) ** 2).sum(-1)
    p = np.exp(-(d2**2) / (2 * (0.5 * d2.max()) ** 2))
    return p / p.sum()
