"""C21: simulating and inspecting never change the design or the settings."""
import os, io, copy, pickle, contextlib
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon.checks.c20_saveload import snap
from mon import fdtdcase

PROPERTY = "C21"
RULE = (
    "Histories of 10-16 calls (spectra with both solvers with and without validation, permittivities of a model, all plots, printing, validation, materials, layers, default configuration) interleaved over 3 worlds (configuration, design, model) of different solvers, "
    "sizes, precisions and types. Before and after every call deep snapshots of all worlds (settings, permittivity bytes and gradients, model parameters) and of the process (random states, default dtype, grad mode, FDTD backend, working directory, environment) are compared; every result is compared with "
    "the result of the same call alone in a pristine process. Further histories interleave simulations that differ in a single setting (thickness, lattice, media, source, absorber, one permittivity, ...), with separate objects and with one configuration and tensor edited in place. Others run simulations in three threads at the same time (thread switches every 10 us), again compared with each simulation alone. Non-trivial: at least one call was repeated after other worlds were used; distinct by case."
)
ASSUMPTIONS = [
    "derived entries may be added to a configuration, and a single common thickness may be expanded to one per layer",
    "models without noise (noise draws random numbers by design)",
    "spectra are equal to 1e-12",
]
BUDGET = {"quick": 40, "thorough": 600}
REQUIRED = {"calls": 300, "snapshots compared": 900, "results compared with a pristine process": 150, "near-twin results compared": 60, "results of simultaneous simulations compared": 40, "pairs of simulations that overlapped in time": 30}
MAXTASKS = 1  # every history starts in a process forked from the untouched parent

WORLDS = ["uniform", "uniform32", "patterned", "fdtd", "siren", "nerf", "voxel", "class", "fdtd_siren", "many"]


def cases(rng, tier):
    out = []
    for i in range(26 if tier == "quick" else 600):
        ws = rng.sample(WORLDS, 3)
        out.append(dict(s=seed(rng), worlds=ws, n=rng.choice([10, 13, 16])))
    # near-twins: simulations that differ in one setting only, in any order, with new or reused objects
    tw = []
    for i in range(30 if tier == "quick" else 800):
        kind = ["fdtd", "uniform", "patterned", "fdtd", "uniform32"][i % 5]
        m = sorted(rng.sample(sorted(TWINS["fdtd" if kind == "fdtd" else "trcwa"]), 3 if kind == "fdtd" else 4))
        tw.append(dict(part="twins", s=seed(rng), kind=kind, muts=m, n=6 if kind == "fdtd" else 12, inplace=rng.random() < 0.5))
    for i in range(16 if tier == "quick" else 300):  # several simulations at the same time
        kinds = [["fdtd", "fdtd", "fdtd"], ["uniform", "uniform", "uniform32"], ["patterned", "patterned", "uniform"], ["fdtd", "uniform", "patterned"]][i % 4]
        tw.insert(2 * i, dict(part="threads", s=seed(rng), kinds=kinds, n=3))
    k = max(1, len(tw) // len(out) + 1)
    mixed = []
    while out or tw:
        mixed += tw[:k] + out[:1]
        tw, out = tw[k:], out[1:]
    return mixed


def _scale(x, q):
    return [_scale(v, q) for v in x] if isinstance(x, list) else x * q


TWINS = {
    "trcwa": {
        "thickness": lambda c, e: c.update(PER_LAYER_THICKNESS=_scale(list(c.PER_LAYER_THICKNESS), 1.3)),
        "first thickness": lambda c, e: c.update(PER_LAYER_THICKNESS=[c.PER_LAYER_THICKNESS[0] * 1.21] + list(c.PER_LAYER_THICKNESS[1:])),
        "lattice": lambda c, e: c.update(TRCWA_L_grid=_scale([list(x) for x in c.TRCWA_L_grid], 1.1)),
        "lattice y": lambda c, e: c.update(TRCWA_L_grid=[list(c.TRCWA_L_grid[0]), _scale(list(c.TRCWA_L_grid[1]), 1.2)]),
        "orders": lambda c, e: c.update(TRCWA_NG=21 if c.TRCWA_NG < 21 else 9),
        "cover": lambda c, e: c.update(TRCWA_TOP_LAYER_EPS=c.TRCWA_TOP_LAYER_EPS + 0.5),
        "substrate": lambda c, e: c.update(TRCWA_BOTTOM_LAYER_EPS=c.TRCWA_BOTTOM_LAYER_EPS + 0.7),
        "frequencies": lambda c, e: c.update(target_frequencies=np.asarray(c.target_frequencies) * 1.05),
        "one frequency": lambda c, e: c.update(target_frequencies=np.concatenate([np.asarray(c.target_frequencies)[:-1], np.asarray(c.target_frequencies)[-1:] * 1.07])),
        "permittivity": lambda c, e: e.mul_(1.1),
        "one permittivity": lambda c, e: e[0, 0, -1, -1:].mul_(1.5),
        "mirrored": lambda c, e: e.copy_(e.flip(2).clone()),
        "conjugate losses": lambda c, e: e.copy_(e.real + 0.5j * e.imag),
        "same": lambda c, e: None,
    },
    "fdtd": {
        "thickness": lambda c, e: c.update(PER_LAYER_THICKNESS=_scale(list(c.PER_LAYER_THICKNESS), 1.4)),
        "swap": lambda c, e: c.update(PER_LAYER_THICKNESS=list(c.PER_LAYER_THICKNESS)[::-1]),
        "free space": lambda c, e: c.update(FDTD_free_space_distance=c.FDTD_free_space_distance + 0.6),
        "absorber": lambda c, e: c.update(FDTD_pml_thickness=c.FDTD_pml_thickness * 0.7),
        "source": lambda c, e: c.update(FDTD_source_position=[c.FDTD_source_position[0] - 0.35, c.FDTD_source_position[1]]),
        "source type": lambda c, e: c.update(FDTD_source_type="point" if c.FDTD_source_type == "line" else "line"),
        "pulse": lambda c, e: c.update(FDTD_pulse_type="ricker"),
        "detector": lambda c, e: c.update(FDTD_gridpoints_from_material_to_detector=1 if c.FDTD_gridpoints_from_material_to_detector > 1 else 2),
        "steps": lambda c, e: c.update(FDTD_niter=c.FDTD_niter + 12),
        "resolution": lambda c, e: c.update(FDTD_min_gridpoints_per_unit_magnitude=c.FDTD_min_gridpoints_per_unit_magnitude + 4),
        "wavelength": lambda c, e: c.update(physical_wavelength_range=[w * 1.1 for w in c.physical_wavelength_range]),
        "permittivity": lambda c, e: e.mul_(1.3),
        "one permittivity": lambda c, e: e[0, 0, -1].mul_(1.5),
        "conjugate losses": lambda c, e: e.copy_(e.real + 0.5j * e.imag),
        "same": lambda c, e: None,
    },
}


def in_fork(f):
    """the result of f in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(("ok", f()))
        except BaseException as ex:
            data = pickle.dumps(("error", type(ex).__name__))
        with os.fdopen(w, "wb") as h:
            h.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        out = pickle.loads(h.read())
    os.waitpid(pid, 0)
    return out


def run_twins(d):
    """Spectra of near-identical settings, interleaved, each against the same simulation alone in a process of its own."""
    import nidn, torch

    g = gen(d)
    o = Obs()
    table = TWINS["fdtd" if d["kind"] == "fdtd" else "trcwa"]
    s = d["s"] % 10**6

    def make(m):
        c, e = world(d["kind"], s)
        e = e.detach().clone()
        if m:
            table[m](c, e)
            if d["kind"] == "fdtd":
                freqs(c)
        return c, e

    def result(c, e):
        try:
            R, T = nidn.compute_spectrum(e, c)
        except Exception as ex:
            return ("error", type(ex).__name__)
        return ("ok", np.array(nums(R) + nums(T)))

    muts = [None] + d["muts"]
    alone = {m: in_fork(lambda m=m: result(*make(m)))[1] for m in muts}
    o.add("results compared with a pristine process", 0)
    objs = {m: make(m) for m in muts}
    C, E = make(None)  # the objects that are reused
    history = []
    for step in range(d["n"]):
        m = muts[step] if step < len(muts) else muts[int(g.integers(len(muts)))]
        if d["inplace"]:
            # the user edits one configuration and one tensor in place between the simulations
            c2, e2 = make(m)
            for k in list(C.keys()):
                if k not in c2:
                    del C[k]
            for k in c2.keys():
                C[k] = c2[k]
            E.copy_(e2)
            c, e = C, E
        else:
            c, e = objs[m]
        v = result(c, e)
        ref = alone[m]
        history.append(m or "base")
        require(v[0] == ref[0], f"{d['kind']} simulation with another {m}: {v[0]} after {history}, {ref[0]} alone")
        if v[0] == "ok":
            require(v[1].shape == ref[1].shape and np.all((np.abs(v[1] - ref[1]) <= 1e-12 * (1 + np.abs(ref[1]))) | (np.isnan(v[1]) & np.isnan(ref[1]))), f"{d['kind']} simulation with another {m} gave {v[1][:4]} after {history} and {ref[1][:4]} alone in a process")
            o.add("results compared with a pristine process")
            o.add("near-twin results compared")
        o.add("calls")
        o.seen("near-twin", (d["kind"], m or "base"))
    ok = [alone[m][1] for m in muts if alone[m][0] == "ok"]
    o.nontrivial = any(a.shape != ok[0].shape or np.abs(a - ok[0]).max() > 1e-6 for a in ok[1:]) if ok else False
    o.sample = {"history": history}
    return o


def run_threads(d):
    """Spectra computed by several threads at the same time, each against the same simulation alone in a process of its own."""
    import nidn, torch, sys, threading, time

    o = Obs()
    jobs = []
    for k, kind in enumerate(d["kinds"]):
        table = TWINS["fdtd" if kind == "fdtd" else "trcwa"]
        g = np.random.default_rng(d["s"] + k)
        for m in [None] + [str(x) for x in g.choice(sorted(table), d["n"] - 1, replace=False)]:
            jobs.append((k, kind, m))

    def make(kind, m):
        c, e = world(kind, d["s"] % 10**6)
        e = e.detach().clone()
        if m:
            TWINS["fdtd" if kind == "fdtd" else "trcwa"][m](c, e)
            if kind == "fdtd":
                freqs(c)
        return c, e

    def result(c, e):
        try:
            R, T = nidn.compute_spectrum(e, c)
        except Exception as ex:
            return ("error", type(ex).__name__)
        return ("ok", np.array(nums(R) + nums(T)))

    ref = {j: in_fork(lambda j=j: result(*make(*j[1:])))[1] for j in jobs}
    objs = {j: make(*j[1:]) for j in jobs}
    got, spans = {}, []
    gate = threading.Barrier(len(d["kinds"]))

    def work(k):
        gate.wait()
        for j in jobs:
            if j[0] == k:
                t = time.perf_counter()
                got[j] = result(*objs[j])
                spans.append((k, t, time.perf_counter()))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(d["kinds"]))]
        [t.start() for t in th]
        [t.join() for t in th]
    finally:
        sys.setswitchinterval(old)
    for j in jobs:
        v, r = got[j], ref[j]
        require(v[0] == r[0], f"{j[1]} simulation with another {j[2]}: {v} while other threads simulate, {r} alone")
        if v[0] == "ok":
            require(v[1].shape == r[1].shape and np.all((np.abs(v[1] - r[1]) <= 1e-12 * (1 + np.abs(r[1]))) | (np.isnan(v[1]) & np.isnan(r[1]))), f"{j[1]} simulation with another {j[2]} gave {v[1][:4]} while other threads simulated and {r[1][:4]} alone in a process")
            o.add("results of simultaneous simulations compared")
    o.add("pairs of simulations that overlapped in time", sum(a[0] < b[0] and a[1] < b[2] and b[1] < a[2] for a in spans for b in spans))
    o.add("calls", len(jobs))
    o.sig = ("threads", tuple(d["kinds"]), d["s"])
    o.sample = {"threads": d["kinds"]}
    return o


def world(kind, s):
    """(configuration, permittivities or None)"""
    import nidn, torch

    g = np.random.default_rng(s)
    wl = sorted(float(round(x, 3)) for x in (g.uniform(0.6, 1.2), g.uniform(1.3, 3)))
    kw = dict(name=kind, physical_wavelength_range=[w * 1e-6 for w in wl], freq_distribution=str(g.choice(["linear", "log"])), seed=int(g.integers(1000)), iterations=1, n_neurons=8, hidden_layers=2)
    nf = int(g.integers(1, 4))
    eps = None
    targets = lambda nf: dict(target_reflectance_spectrum=[0.5] * nf, target_transmittance_spectrum=[0.5] * nf)
    if kind in ("uniform", "uniform32", "many"):
        nl = 12 if kind == "many" else int(g.integers(1, 4))
        one = g.random() < 0.5
        c = cfg(Nx=1, Ny=1, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=[round(float(x), 3) for x in g.uniform(0.05, 0.8, 1 if one else nl)], TRCWA_TOP_LAYER_EPS=round(float(g.uniform(1, 3)), 2), **kw, **targets(nf))
        freqs(c)
        e = eps_values(g, "mixed", (1, 1, nl, nf))
        eps = torch.tensor(e, dtype=torch.complex64 if kind == "uniform32" else torch.complex128, requires_grad=bool(g.random() < 0.5))
    elif kind == "patterned":
        nl = int(g.integers(1, 3))
        c = cfg(Nx=8, Ny=7, N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=[0.3], TRCWA_NG=9, TRCWA_L_grid=[[0.5, 0.0], [0.0, 0.6]], **kw, **targets(nf))
        freqs(c)
        e = eps_values(g, "lossy", (8, 7, nl, nf))
        e[:, :, 0] = e[:1, :1, 0]  # a constant layer, described by its grid
        eps = torch.tensor(e, requires_grad=bool(g.random() < 0.5))
    elif kind == "fdtd":
        import random

        d = fdtdcase.draw(random.Random(s), nf=1, nl=2, pulse="continuous", source=["line", "point"][s % 2], minpts=6)
        d["niter"] = 60
        c = fdtdcase.config(d, name=kind)
        freqs(c)
        eps = torch.tensor(fdtdcase.perm(d)[None, None], requires_grad=bool(g.random() < 0.5))
    else:
        m = {"siren": "siren", "nerf": "nerf", "voxel": "voxel", "class": "siren", "fdtd_siren": "siren"}[kind]
        nx = 2 if kind in ("voxel", "nerf") else 1
        c = cfg(Nx=nx, Ny=1, N_layers=2, N_freq=1 if kind == "fdtd_siren" else nf, model_type=m, type="classification" if kind == "class" else "regression", PER_LAYER_THICKNESS=[0.4], TRCWA_NG=1, real_min_eps=1.0, real_max_eps=9.0, imag_max_eps=1.0, **kw, **targets(1 if kind == "fdtd_siren" else nf))
        if kind == "fdtd_siren":
            c.solver = "FDTD"
            c.FDTD_niter = 150
            c.FDTD_min_gridpoints_per_unit_magnitude = 6
            c.FDTD_pml_thickness, c.FDTD_free_space_distance, c.FDTD_source_position = 1.0, 1.0, [1.4, 1.0]
        c = nidn.run_training(c)
        c.model.train(bool(s % 2))
    return c, eps


def ops(kind, c, eps):
    """name -> call; each returns comparable numbers"""
    import nidn, torch

    def spec(**k):
        R, T = nidn.compute_spectrum(eps if eps is not None else nidn.model_to_eps_grid(c.model, c)[0], c, **k)
        return np.array(nums(R) + nums(T))

    def quiet(f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            f()
        return b.getvalue()

    def layers():
        L = nidn.LayerBuilder(c)
        return L.build_uniform_layer("germanium").numpy()

    def val():
        try:
            _validate_config = internal("nidn.utils.validate_config", "_validate_config")
        except ImportError:
            return
        _validate_config(c)

    def default():
        a = nidn.load_default_cfg()
        before = snap(a)
        for k in list(a.keys()):
            if isinstance(a[k], list):
                a[k].append(99.0)
            else:
                a[k] = "x"
        b = nidn.load_default_cfg()
        require(snap(b) == before, "changing a loaded default configuration changed the default")
        return None

    def plots(f):
        def g():
            import matplotlib

            matplotlib.use("Agg")
            import matplotlib.pyplot as plt

            f()
            plt.close("all")

        return g

    o = {
        "spectrum": spec,
        "spectrum unvalidated": lambda: spec(validate_cfg=False),
        "print": lambda: quiet(lambda: nidn.print_cfg(c)) and None,
        "validate": val,
        "materials": lambda: nidn.MaterialCollection(c.target_frequencies).epsilon_matrix.numpy(),
        "layer": layers,
        "default": default,
        "frequencies": lambda: np.array(nums(nidn.compute_target_frequencies(c.physical_wavelength_range[0], c.physical_wavelength_range[1], c.N_freq, c.freq_distribution))),
        "plot spectrum": plots(lambda: nidn.plot_spectrum(c, [0.2] * c.N_freq, [0.3] * c.N_freq)),
    }
    if eps is not None:
        o["plot eps"] = plots(lambda: nidn.plot_epsilon_grid(eps, c))
        o["plot materials"] = plots(lambda: nidn.plot_material_grid(c, eps=eps, plot_error=True))
        o["spectrum twice"] = lambda: np.stack([spec(), spec()])
    else:
        def epsm():
            e, m = nidn.model_to_eps_grid(c.model, c)
            return np.concatenate([e.detach().numpy().ravel(), m.detach().numpy().ravel() + 0j if torch.is_tensor(m) else []])

        o["eps"] = epsm
        o["eps again"] = epsm
        for nm in ("plot_spectra", "plot_losses", "plot_model_grid", "plot_model_grid_per_freq", "plot_material_grid", "plot_eps_per_point"):
            o[nm] = plots(lambda nm=nm: getattr(nidn, nm)(c))
    return o


def design(c, eps):
    """deep snapshot of one world"""
    import torch

    s = {"cfg:" + k: v for k, v in snap(c).items()}
    if eps is not None:
        s["eps"] = (str(eps.dtype), tuple(eps.shape), eps.requires_grad, eps.grad is None, eps.detach().numpy().tobytes())
    if "model" in c.keys():
        m = c.model
        s["model"] = (m.training, [(n, p.requires_grad, p.grad is None, p.detach().numpy().tobytes()) for n, p in m.named_parameters()])
    return s


def process():
    import torch, random
    from nidn import fdtd

    return {
        "default dtype": str(torch.get_default_dtype()),
        "grad mode": torch.is_grad_enabled(),
        "torch random state": torch.get_rng_state().numpy().tobytes(),
        "numpy random state": pickle.dumps(np.random.get_state()),
        "python random state": random.getstate(),
        "FDTD backend": (type(fdtd.backend).__name__, str(fdtd.backend.float)),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy errors": np.geterr(),
        "torch threads": torch.get_num_threads(),
        "anomaly mode": torch.is_anomaly_enabled(),
        "files": sorted(os.listdir(".")),
    }


def allowed(k, a, b, c):
    if a is None and k.startswith("cfg:"):
        return True  # derived entry added
    if k == "cfg:PER_LAYER_THICKNESS" and a[0] == "list" and len(a[1]) == 1 and b[0] == "list":
        return len(b[1]) == c.N_layers and all(x == a[1][0] for x in b[1])
    return False


def pristine(kind, s, names):
    """results of single calls, each in a process of its own forked from here"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {}
        try:
            c, e = world(kind, s)
            O = ops(kind, c, e)
            for n in names:  # each from the same untouched state of the process
                r1, w1 = os.pipe()
                p1 = os.fork()
                if p1 == 0:
                    try:
                        data = pickle.dumps(("ok", O[n]()))
                    except BaseException as ex:
                        data = pickle.dumps(("error", repr(ex)))
                    with os.fdopen(w1, "wb") as f:
                        f.write(data)
                    os._exit(0)
                os.close(w1)
                with os.fdopen(r1, "rb") as f:
                    out[n] = pickle.loads(f.read())
                os.waitpid(p1, 0)
        except BaseException as ex:
            out = {n: ("error", repr(ex)) for n in names}
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = pickle.loads(f.read())
    os.waitpid(pid, 0)
    return out


def run(d):
    if d.get("part") == "twins":
        return run_twins(d)
    if d.get("part") == "threads":
        return run_threads(d)
    import torch, tempfile, random

    g = gen(d)
    os.chdir(tempfile.mkdtemp(dir=os.environ["MON_SCRATCH"]))
    o = Obs()
    base = []
    numeric = ("spectrum", "eps", "materials", "layer", "frequencies")
    for j, k in enumerate(d["worlds"]):
        s = d["s"] % 10**6 + j
        base.append(pristine(k, s, ["spectrum", "materials", "layer", "frequencies"] + (["eps"] if k in ("siren", "nerf", "voxel", "class", "fdtd_siren") else [])))
        for n, (st, v) in base[-1].items():
            if st != "ok":
                raise Violation(f"{n} of a {k} design alone: {v}")
    W = [world(k, d["s"] % 10**6 + j) for j, k in enumerate(d["worlds"])]
    O = [ops(k, *w) for k, w in zip(d["worlds"], W)]
    # any state of the process may be current when the user calls
    torch.manual_seed(int(g.integers(1 << 30)))
    np.random.seed(int(g.integers(1 << 30)))
    random.seed(int(g.integers(1 << 30)))
    done = {}
    for step in range(d["n"]):
        j = int(g.integers(3))
        k = d["worlds"][j]
        slow = k.startswith("fdtd")
        n = "spectrum" if g.random() < (0.3 if not slow else 0.2) else str(g.choice([x for x in O[j] if not (slow and x in ("spectrum twice", "plot_spectra"))]))
        before, pb = [design(*w) for w in W], process()
        v = O[j][n]()
        after, pa = [design(*w) for w in W], process()
        o.add("calls")
        o.seen("call", n)
        o.seen("world", k)
        for i in range(3):
            for q in set(before[i]) | set(after[i]):
                a, b = before[i].get(q), after[i].get(q)
                if a != b and not (i == j and allowed(q, a, b, W[i][0])):
                    raise Violation(f"{n} of the {k} design changed {q} of " + ("it" if i == j else f"the {d['worlds'][i]} design") + ("" if not q.startswith("cfg:") else f" from {str(a)[:120]} to {str(b)[:120]}"))
            o.add("snapshots compared")
        for q in pb:
            if q == "FDTD backend" and slow:
                continue  # the FDTD solver selects the array backend it needs, every time
            require(pb[q] == pa[q], f"{n} of the {k} design changed the {q} of the process")
        o.add("snapshots compared")
        for key, ref in (((j, n), done.get((j, n))), ("pristine", base[j].get({"spectrum unvalidated": "spectrum", "eps again": "eps"}.get(n, n), (0, None))[1])):
            if ref is None or v is None:
                continue
            v2, r2 = np.asarray(v), np.asarray(ref)
            tol = 1e-12 if "spectrum" in n else 0
            require(v2.shape == r2.shape and np.all(np.abs(v2 - r2) <= tol * (1 + np.abs(r2))), f"{n} of the {k} design gave {v2.ravel()[:4]} after the history {[x for x in done]} and {r2.ravel()[:4]} " + ("in a process of its own" if key == "pristine" else "before"))
            o.add("results compared with a pristine process" if key == "pristine" else "repeated results compared")
        if n == "spectrum twice":
            require(np.all(np.abs(v[0] - v[1]) <= 1e-12), "two spectra of the same design differ")
        done[(j, n)] = v
    o.nontrivial = len({x[0] for x in done}) > 1
    o.sample = {"history": [f"{d['worlds'][a]}: {b}" for a, b in list(done)[:8]]}
    return o
