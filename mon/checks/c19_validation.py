"""C19: invalid configurations are rejected before any simulation, valid ones accepted."""
import copy
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C19"
RULE = (
    "The default and random valid configurations must be accepted unchanged by validation, by compute_spectrum and by run_training; each of them with exactly one flaw, enumerated over all entries (missing, unknown, "
    "wrong type, out of range, inconsistent, unknown choice), must raise an error at every entry point before a model is evaluated. Grids of permittivities (and frequency lists) of another shape than configured must be refused by the RCWA solver. Non-trivial: every flawed configuration; distinct by flaw, entry point and base configuration."
)
ASSUMPTIONS = ["the internal validation function keeps its name; when it cannot be found only compute_spectrum and run_training are observed"]
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = {"grids of the wrong shape rejected": 20, "flawed configurations rejected": 200, "valid configurations accepted": 50}

INT = ["Nx", "Ny", "N_layers", "N_freq", "encoding_dim", "n_neurons", "eps_oversampling", "seed", "TRCWA_NG", "FDTD_niter", "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]
FLOAT = ["L", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "siren_omega", "noise_scale", "reg_loss_weight", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "FDTD_free_space_distance", "FDTD_pml_thickness"]
BOOL = ["use_regularization_loss", "add_noise", "use_gpu", "avoid_zero_eps"]
STR = ["model_type", "type", "name", "freq_distribution", "solver", "FDTD_source_type", "FDTD_pulse_type"]
LIST = ["PER_LAYER_THICKNESS", "TRCWA_L_grid", "FDTD_source_position", "target_reflectance_spectrum", "target_transmittance_spectrum", "physical_wavelength_range"]
OTHER = ["hidden_layers", "learning_rate", "iterations", "absorption_loss"]
POS = ["L", "n_neurons", "Nx", "Ny", "N_layers", "N_freq", "learning_rate", "iterations", "eps_oversampling", "noise_scale", "TRCWA_NG", "reg_loss_weight", "FDTD_niter", "FDTD_free_space_distance", "FDTD_pml_thickness",
       "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]


def flaws():
    """(label, key, operation, value): JSON-able single flaws"""
    F = []
    for k in INT + FLOAT + BOOL + STR + LIST + OTHER:
        F.append(["missing", k, "del", None])
    for k in ["foo", "N_layer", "nx", "Thickness", "target_spectrum", "_x", "eps", "best_loss", "device", "PER_LAYER_THICKNESS_", "FDTD_grid_size", "loss"]:
        F.append(["unknown entry", k, "set", 1.0])
    for k in INT:
        for v in ["3", 2.5, None, [1]]:
            F.append(["type", k, "set", v])
    for k in FLOAT:
        for v in ["1.0", 1, None, [1.0]]:
            F.append(["type", k, "set", v])
    for k in BOOL:
        for v in ["true", 1, 0, None]:
            F.append(["type", k, "set", v])
    for k in STR:
        for v in [3, None, ["linear"]]:
            F.append(["type", k, "set", v])
    for k in LIST:
        for v in [1.0, None, "abc", "tuple", "array"]:
            F.append(["type", k, "set" if v not in ("tuple", "array") else v, v])
    for k in ["learning_rate", "iterations"]:
        F.append(["type", k, "set", "many"])
        F.append(["type", k, "set", None])
    for k in POS:
        for v in ([0, -1, -20] if k in INT or k == "iterations" else [0.0, -0.5, -1e-9, "nan"]):
            F.append(["range", k, "set" if v != "nan" else "nan", v])
    F += [
        ["range", "real_min_eps", "set", 1000.0], ["range", "real_max_eps", "set", -1000.0], ["range", "imag_min_eps", "set", 50.0], ["range", "imag_max_eps", "set", -50.0],
        ["range", "physical_wavelength_range", "reverse", None], ["range", "physical_wavelength_range", "equal", None], ["range", "physical_wavelength_range", "set", [-2e-6, 3e-6]],
        ["range", "physical_wavelength_range", "set", [0.0, 3e-6]], ["range", "physical_wavelength_range", "set", [-5e-6, -1e-6]],
        ["range", "PER_LAYER_THICKNESS", "elem", 0.0], ["range", "PER_LAYER_THICKNESS", "elem", -0.3], ["range", "PER_LAYER_THICKNESS", "elem-last", -0.3],
        ["range", "FDTD_source_position", "elem", -1.0], ["range", "FDTD_source_position", "elem", 0.0], ["range", "FDTD_source_position", "elem-last", -0.2],
        ["range", "target_reflectance_spectrum", "elem", -0.1], ["range", "target_transmittance_spectrum", "elem", -0.1], ["range", "target_reflectance_spectrum", "elem-last", -1e-6],
        ["range", "target_transmittance_spectrum", "elem-last", -1e-6],
        ["size", "PER_LAYER_THICKNESS", "set-n", 1], ["size", "PER_LAYER_THICKNESS", "set-n", -1], ["size", "PER_LAYER_THICKNESS", "set", []],
        ["size", "eps_oversampling", "not-divisor-x", None], ["size", "eps_oversampling", "not-divisor-y", None],
        ["size", "eps_oversampling", "beyond-x", 1], ["size", "eps_oversampling", "beyond-y", 1], ["size", "eps_oversampling", "beyond-x", 5], ["size", "eps_oversampling", "beyond-y", 5],
        ["size", "FDTD_source_position", "set", [1.5]], ["size", "FDTD_source_position", "set", [1.5, 1.0, 1.0, 1.0]], ["size", "FDTD_source_position", "set", []],
        ["size", "FDTD_gridpoints_from_material_to_detector", "beyond", 1], ["size", "FDTD_gridpoints_from_material_to_detector", "beyond", 50], ["size", "FDTD_gridpoints_from_material_to_detector", "beyond-frac", 0.6],
        ["size", "FDTD_gridpoints_from_material_to_detector", "beyond-frac", 0.9], ["size", "FDTD_gridpoints_from_material_to_detector", "beyond-frac", 0.2],
        ["size", "TRCWA_L_grid", "set", [[0.0, 0.1], [0.0, 0.1]]], ["size", "TRCWA_L_grid", "set", [[0.1, 0.0], [0.1, 0.0]]],
        ["size", "TRCWA_L_grid", "set", [[0.1, 0.1], [0.0, 0.1]]], ["size", "TRCWA_L_grid", "set", [[0.1, 0.0], [0.1, 0.1]]],
    ]
    for k, vs in {"type": ["Regression", "reg", "", "classify"], "solver": ["trcwa", "fdtd", "RCWA", "", "FDTD "], "freq_distribution": ["lin", "Linear", "", "logarithmic"],
                  "FDTD_source_type": ["Line", "plane", ""], "FDTD_pulse_type": ["pulse", "", "Ricker", "gauss"]}.items():
        for v in vs:
            F.append(["choice", k, "set", v])
    return F


def cases(rng, tier):
    out = []
    F = flaws()
    for rep in range(1 if tier == "quick" else 30):
        for i, f in enumerate(F):
            out.append(dict(s=seed(rng), flaw=f, base="default" if rng.random() < 0.3 else "random", entry=["validate", "spectrum", "training"]))
    for i in range(24 if tier == "quick" else 600):  # permittivities that do not belong to the configuration
        out.append(dict(s=seed(rng), mismatch=["Nx", "Ny", "layers", "freqs", "swapped", "frequencies"][i % 6], by=[1, -1, 2, 1][i // 6 % 4]))
    for i in range(100 if tier == "quick" else 4000):
        out.append(dict(s=seed(rng), flaw=None, base="default" if i == 0 else "random", entry=["validate"] + (["spectrum", "training"] if i % 2 == 0 else [])))
    for i in range(60 if tier == "quick" else 2000):  # valid, but far from everyday settings
        out.append(dict(s=seed(rng), flaw=None, base="wide", entry=["validate"]))
    return out


def make(base, g):
    c = cfg()
    if base == "default":
        return c
    if base == "wide":
        c = make("random", g)
        k = int(g.integers(1, 9))
        pick = lambda *v: v[int(g.integers(len(v)))]
        big = dict(
            N_layers=lambda: int(g.integers(6, 80)), N_freq=lambda: int(g.integers(30, 500)), n_neurons=lambda: int(10 ** g.uniform(2, 4)), hidden_layers=lambda: int(g.integers(8, 30)), iterations=lambda: int(10 ** g.uniform(3, 6)),
            L=lambda: float(10 ** g.uniform(-2, 1.3)), learning_rate=lambda: float(10 ** g.uniform(-8, 2)), noise_scale=lambda: float(10 ** g.uniform(-9, 2)), reg_loss_weight=lambda: float(10 ** g.uniform(-8, 4)), siren_omega=lambda: float(10 ** g.uniform(-3, 4)),
            TRCWA_NG=lambda: int(g.integers(12, 500)), TRCWA_TOP_LAYER_EPS=lambda: float(g.uniform(0.1, 30)), TRCWA_BOTTOM_LAYER_EPS=lambda: float(g.uniform(0.1, 30)), FDTD_niter=lambda: pick(1, 7, 20000), FDTD_pml_thickness=lambda: float(10 ** g.uniform(-2, 2)),
            seed=lambda: pick(0, 2**31, 99999), encoding_dim=lambda: pick(1, 12, 100), real_min_eps=lambda: float(c.real_max_eps), imag_max_eps=lambda: float(g.uniform(3, 1000)), target_reflectance_spectrum=lambda: [0.0] * pick(1, c.N_freq, 40),
            target_transmittance_spectrum=lambda: [1.0, 1.7] * pick(1, 20), TRCWA_L_grid=lambda: [[float(10 ** g.uniform(-4, 3)), 0.0], [0.0, float(10 ** g.uniform(-4, 3))]], name=lambda: pick("", "x" * 200, "a/b", "ü ✓"),
            PER_LAYER_THICKNESS=lambda: [float(10 ** g.uniform(-4, 3)) for _ in range(pick(1, c.N_layers))], FDTD_source_position=lambda: [float(10 ** g.uniform(-4, 3)) for _ in range(pick(2, 3))],
        )
        keys = list(big)
        for q in g.permutation(len(keys))[:k]:
            c[keys[q]] = big[keys[q]]()
        if len(c.PER_LAYER_THICKNESS) not in (1, c.N_layers):
            c.PER_LAYER_THICKNESS = [0.3] * c.N_layers
        if g.random() < 0.3:  # wavelengths from X-rays to radio waves
            a = 10 ** g.uniform(-9, 0)
            c.physical_wavelength_range = [a, a * float(10 ** g.uniform(1e-4, 4))]
            c.FDTD_gridpoints_from_material_to_detector = 1
            c.FDTD_free_space_distance = max(c.FDTD_free_space_distance, 1.0)
        return c
    ov = int(g.choice([1, 1, 2, 3]))
    nl, nf = int(g.integers(1, 5)), int(g.integers(1, 4))
    c.Nx, c.Ny, c.eps_oversampling = ov * int(g.integers(1, 3)), ov * int(g.integers(1, 3)), ov
    c.N_layers, c.N_freq = nl, nf
    c.PER_LAYER_THICKNESS = [float(x) for x in g.uniform(0.1, 1.2, 1 if g.random() < 0.4 else nl)]
    c.real_min_eps = float(g.uniform(-50, 1))
    c.real_max_eps = float(c.real_min_eps + g.choice([0, 5.0, 40.0]))
    c.imag_min_eps = float(g.choice([-0.5, 0.0]))
    c.imag_max_eps = float(g.choice([0.0, 2.0]))
    a = float(g.uniform(0.4, 2)) * 1e-6
    c.physical_wavelength_range = [a, a * float(g.uniform(1.01, 20))]
    c.type = str(g.choice(["regression", "classification"]))
    c.solver = str(g.choice(["TRCWA", "TRCWA", "FDTD"]))
    c.model_type = str(g.choice(["siren", "nerf"]))
    c.freq_distribution = str(g.choice(["linear", "log"]))
    c.FDTD_source_type = str(g.choice(["line", "point"]))
    c.FDTD_pulse_type = str(g.choice(["ricker", "hanning", "continuous"]))
    c.target_reflectance_spectrum = [float(x) for x in g.uniform(0, 1, nf)]
    c.target_transmittance_spectrum = [float(x) for x in g.uniform(0, 1, nf)]
    c.target_reflectance_spectrum[0] = 0.0
    c.L = float(g.choice([0.5, 1.0, 2.0]))
    c.add_noise, c.avoid_zero_eps, c.absorption_loss, c.use_regularization_loss = [bool(x) for x in g.random(4) < 0.5]
    c.TRCWA_NG = int(g.integers(1, 12))
    c.TRCWA_L_grid = [[float(g.uniform(0.1, 2)), 0.0], [0.0, float(g.uniform(0.1, 2))]]
    c.FDTD_niter = int(g.integers(50, 500))
    c.FDTD_min_gridpoints_per_unit_magnitude = int(g.integers(5, 30))
    c.FDTD_source_position = [float(x) for x in g.uniform(0.1, 3, int(g.choice([2, 2, 3])))]
    c.FDTD_gridpoints_from_material_to_detector = int(g.integers(1, 4))
    c.FDTD_free_space_distance = float(g.uniform(0.9, 3))
    c.FDTD_pml_thickness = float(g.uniform(0.5, 3))
    c.n_neurons, c.hidden_layers, c.iterations, c.seed = int(g.integers(1, 50)), int(g.integers(1, 5)), int(g.integers(1, 3)), int(g.integers(0, 100))
    if g.random() < 0.4:  # detectors as far away as possible
        s = max(1e-6 / (c.physical_wavelength_range[0] * 0.1), c.FDTD_min_gridpoints_per_unit_magnitude)
        n = int(s * c.FDTD_free_space_distance)
        c.FDTD_free_space_distance = (n + float(g.uniform(0.2, 0.8))) / s
        c.FDTD_gridpoints_from_material_to_detector = n
    c.name = "run " + str(g.integers(100))
    if g.random() < 0.4:  # entries that earlier calls leave behind
        freqs(c)
    return c


def spoil(c, f, g):
    _, k, op, v = f
    if op == "del":
        del c[k]
    elif op == "set":
        c[k] = copy.deepcopy(v)
    elif op == "nan":
        c[k] = float("nan")
    elif op == "tuple":
        c[k] = tuple(c[k])
    elif op == "array":
        c[k] = np.array(c[k])
    elif op == "reverse":
        c[k] = list(c[k])[::-1]
    elif op == "equal":
        c[k] = [c[k][0], c[k][0]]
    elif op == "elem":
        x = list(c[k])
        x[int(g.integers(len(x)))] = v
        c[k] = x
    elif op == "elem-last":
        x = list(c[k])
        x[-1] = v
        c[k] = x
    elif op == "set-n":
        n = c.N_layers + v
        c[k] = [0.5] * (n if n > 1 else n + 2 + (c.N_layers == n + 2))
    elif op == "not-divisor-x":
        c.Nx, c.Ny, c.eps_oversampling = 7, 6, 3
    elif op == "not-divisor-y":
        c.Nx, c.Ny, c.eps_oversampling = 6, 7, 3
    elif op == "beyond-x":
        c.eps_oversampling = k_ = int(g.integers(1, 4)) + v
        c.Nx, c.Ny = k_ - int(g.integers(1, k_)), k_ * int(g.integers(1, 3))
    elif op == "beyond-y":
        c.eps_oversampling = k_ = int(g.integers(1, 4)) + v
        c.Ny, c.Nx = k_ - int(g.integers(1, k_)), k_ * int(g.integers(1, 3))
    elif op == "beyond":
        s = max(1e-6 / (c.physical_wavelength_range[0] * 0.1), c.FDTD_min_gridpoints_per_unit_magnitude)
        c[k] = int(s * c.FDTD_free_space_distance) + v
    elif op == "beyond-frac":  # one grid point too far, with this part of a grid point left over
        s = max(1e-6 / (c.physical_wavelength_range[0] * 0.1), c.FDTD_min_gridpoints_per_unit_magnitude)
        n = int(s * c.FDTD_free_space_distance)
        c.FDTD_free_space_distance = (n + v) / s
        c[k] = n + 1


def plain(c):
    return {k: repr(v) if not hasattr(v, "tolist") else repr(v.tolist()) for k, v in c.items()}


def mismatch(d, o):
    """the spectrum of a grid of another shape than configured is refused"""
    import nidn, torch

    g = gen(d)
    c = cfg(Nx=int(g.integers(2, 6)), Ny=int(g.integers(2, 6)), N_layers=int(g.integers(2, 4)), N_freq=int(g.integers(2, 4)), TRCWA_NG=3, PER_LAYER_THICKNESS=[0.3])
    if c.Nx == c.Ny:
        c.Ny += 1
    freqs(c)
    shape = [c.Nx, c.Ny, c.N_layers, c.N_freq]
    if d["mismatch"] == "swapped":
        shape[:2] = shape[1::-1]
    elif d["mismatch"] == "frequencies":
        c.target_frequencies = np.linspace(0.2, 0.8, c.N_freq + d["by"])
        shape[3] += d["by"] if g.random() < 0.5 else 0
    else:
        shape[["Nx", "Ny", "layers", "freqs"].index(d["mismatch"])] += d["by"]
    eps = torch.tensor(g.uniform(1, 4, shape) + 0.1j)
    for validate in (True, False):
        try:
            out = nidn.compute_spectrum(eps, c, validate_cfg=validate)
        except Exception:
            o.add("grids of the wrong shape rejected")
            continue
        raise Violation(f"a grid of the shape {shape} got the spectrum {nums(out[0])} although the configuration says {[c.Nx, c.Ny, c.N_layers, c.N_freq]} and {len(c.target_frequencies)} frequencies")
    o.sig = (d["mismatch"], shape)
    return o


def run(case):
    import nidn, torch

    try:
        val = internal("nidn.utils.validate_config", "_validate_config")
    except ImportError:
        val = None
    try:
        from nidn.fdtd_integration.constants import FDTD_GRID_SCALE
    except ImportError:
        FDTD_GRID_SCALE = 0.1

    d = case
    o = Obs()
    if "mismatch" in d:
        return mismatch(d, o)
    for entry in d["entry"]:
        g = gen(d)
        c = make(d["base"], g)
        if d["flaw"] is None and entry != "validate":
            c.solver = "TRCWA"
            c.TRCWA_NG = 1
            if d["base"] == "default":
                c.iterations = 1
        eps_shape = (c.Nx, c.Ny, c.N_layers, c.N_freq)
        if d["flaw"]:
            if abs(FDTD_GRID_SCALE - 0.1) > 1e-12 and d["flaw"][2] == "beyond":
                continue
            spoil(c, d["flaw"], g)
        before = plain(c)

        def call():
            if entry == "validate":
                if val is None:
                    return None
                return val(c)
            if entry == "spectrum":
                if "target_frequencies" not in c:
                    c["target_frequencies"] = np.linspace(0.2, 0.8, eps_shape[3])
                    before["target_frequencies"] = repr(c["target_frequencies"].tolist())
                e = torch.tensor(np.full(eps_shape, 2.0 + 0.1j))
                return nidn.compute_spectrum(e, c)
            return nidn.run_training(c)

        if entry == "validate" and val is None:
            continue
        with TC.Recorder() as rec:
            try:
                call()
                exc = None
            except Exception as e:
                exc = e
        if d["flaw"]:
            require(exc is not None, f"{entry}: the flawed configuration ({d['flaw']}) was accepted")
            require(not rec.events, f"{entry}: the flaw {d['flaw']} was found only after {len(rec.events)} model evaluations ({exc!r})")
            o.add("flawed configurations rejected")
            o.seen("exception", type(exc).__name__)
        else:
            if exc is not None:
                raise Violation(f"{entry}: a valid configuration was rejected: {exc!r}\n{before}")
            o.add("valid configurations accepted")
        if entry == "validate" or d["flaw"]:
            after = plain(c)
            require(after == before, f"{entry} changed the configuration: {[(k, before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)]}")
    o.sig = (d["flaw"], d["base"], d["s"] if d["flaw"] is None else 0)
    o.sample = {"flaw": d["flaw"]}
    return o
