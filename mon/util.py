"""Small helpers for the monitors."""
import copy
import numpy as np


def cfg(**kw):
    import nidn

    c = nidn.load_default_cfg()
    for k, v in kw.items():
        c[k] = v
    return c


def freqs(c):
    """Sets and returns the target frequencies of c through the public API."""
    import nidn

    c.target_frequencies = nidn.compute_target_frequencies(
        c.physical_wavelength_range[0], c.physical_wavelength_range[1], c.N_freq, c.freq_distribution
    )
    return [float(f) for f in c.target_frequencies]


def num(x):
    return float(x.item() if hasattr(x, "item") else x)


def nums(xs):
    return [num(x) for x in xs]


def rnd(rng, a, b, nd=4):
    return round(rng.uniform(a, b), nd)


def seed(rng):
    return rng.randrange(2**31)


def gen(case):
    return np.random.default_rng(case["s"])


def eps_values(g, kind, shape):
    """Random permittivities of a kind."""
    if kind == "dielectric":
        return g.uniform(1.0, 14.0, shape) + 0j
    if kind == "lossy":
        return g.uniform(1.0, 14.0, shape) + 1j * 10 ** g.uniform(-3, 0.5, shape)
    if kind == "metal":
        return -(10 ** g.uniform(0, 2, shape)) + 1j * 10 ** g.uniform(-1, 1.5, shape)
    if kind == "mixed":
        return g.uniform(-20, 20, shape) + 1j * g.uniform(0.0, 3, shape)
    if kind == "default_range":
        return g.uniform(-100, 100, shape) + 1j * g.uniform(0, 3, shape)
    if kind == "near_zero":
        return np.where(g.random(shape) < 0.5, -1, 1) * g.uniform(0.01, 0.3, shape) + 1j * g.uniform(0, 0.3, shape)
    if kind == "pure_real_mixed":
        return np.where(g.random(shape) < 0.4, -1, 1) * g.uniform(0.2, 20, shape) + 0j
    if kind == "gain":
        return g.uniform(1.0, 9.0, shape) - 1j * 10 ** g.uniform(-3, -0.5, shape)
    if kind == "vacuum":
        return np.ones(shape) + 0j
    raise KeyError(kind)


LOSSY_KINDS = ["dielectric", "lossy", "metal", "mixed", "default_range", "near_zero", "pure_real_mixed"]


def relate(g, e):
    """neighbours that share the real part, the imaginary part, the material or the whole dispersion with an earlier layer"""
    e = e.copy()
    for i in range(1, len(e)):
        j = i - 1 if g.random() < 0.7 else g.integers(i)
        m = g.integers(4)
        if m == 0:
            e[i] = e[j].real + 1j * np.where(e[j].imag > 0, 0, g.uniform(0.5, 1.5, e[j].shape))
        elif m == 1:
            e[i] = e[i].real + 1j * e[j].imag
        elif m == 2:
            e[i] = e[j]
        else:
            e[i, : (e.shape[1] + 1) // 2] = e[j, : (e.shape[1] + 1) // 2]
    return e


def internal(module, name):
    """A function of the code under test that is not part of the package's top level; found again if it was moved or renamed slightly."""
    import importlib, inspect, pkgutil, sys

    def pick(m):
        for k in (name, name.lstrip("_"), "_" + name.lstrip("_")):
            if hasattr(m, k) and not inspect.ismodule(getattr(m, k)):
                return getattr(m, k)

    try:
        m = importlib.import_module(module)
        f = pick(m)
        if f is not None:
            return f
        own = [v for v in vars(m).values() if inspect.isfunction(v) and v.__module__ == module]
        if len(own) == 1:
            return own[0]
    except ImportError:
        pass
    import nidn

    for x in pkgutil.walk_packages(nidn.__path__, "nidn."):
        if ".tests" in x.name or ".scripts" in x.name:
            continue
        try:
            f = pick(importlib.import_module(x.name))
        except Exception:
            continue
        if f is not None:
            return f
    raise ImportError(f"{module}.{name}")
