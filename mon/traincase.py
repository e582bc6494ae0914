"""Training runs under observation: parameters at every model evaluation, learning rate at every optimizer step."""
import copy
import numpy as np
from mon.core import Violation, Skip, require
from mon.util import *


class Recorder:
    """Online event log of a training run (global torch hooks; nothing of the code under test is replaced).
    events: ("eval", parameters) at every evaluation of a whole model, ("step", learning rate) at every optimizer step"""

    def __init__(self):
        self.events = []
        self.depth = 0

    def __enter__(self):
        import torch
        from torch.nn.modules import module as M
        from torch.optim import optimizer as O

        def pre(m, args):
            if self.depth == 0:
                self.events.append(("eval", {k: v.detach().clone() for k, v in m.state_dict().items()}))
                if args:
                    self.inputs = args[0].detach().clone()
            self.depth += 1

        def post(m, args, out):
            self.depth -= 1

        def step(opt, args, kwargs):
            self.events.append(("step", [float(g["lr"]) for g in opt.param_groups]))

        self.h = [
            M.register_module_forward_pre_hook(pre),
            M.register_module_forward_hook(post, always_call=True),
            O.register_optimizer_step_pre_hook(step),
        ]
        return self

    def __exit__(self, *a):
        for h in self.h:
            h.remove()

    def evals(self):
        return [e[1] for e in self.events if e[0] == "eval"]


def own_model(eps0, nan=(), nan_kind="real", raise_at=None, raise_back=None, dtype="c128"):
    """A user's own model: freely trainable permittivities; returns NaN at the scheduled evaluations."""
    import torch

    class Free(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.tensor(np.stack([eps0.real, eps0.imag], -1)))
            self.calls = 0

        def forward(self):
            k = self.calls
            self.calls += 1
            if raise_at is not None and k == raise_at[0]:
                raise raise_at[1]
            re, im = self.p[..., 0], self.p[..., 1]
            if k in nan:
                mask = torch.zeros_like(re)
                if nan_kind in ("one_real", "one_imag"):
                    mask.view(-1)[-1] = float("nan")
                else:
                    mask[:] = float("nan")
                if nan_kind in ("real", "one_real", "both"):
                    re = re + mask
                if nan_kind in ("imag", "one_imag", "both"):
                    im = im + mask
            e = torch.complex(re, im)
            if raise_back is not None and k == raise_back[0] and e.requires_grad:

                def fail(_):
                    raise raise_back[1]

                e.register_hook(fail)
            return e if dtype == "c128" else e.to(torch.cfloat)

    return Free()


def base_cfg(d):
    """training configuration of case d"""
    nl, nf = d["nl"], d["nf"]
    g = np.random.default_rng(d["s"] + 1)
    c = cfg(
        model_type=d.get("model", "voxel"), type=d.get("type", "regression"), iterations=d["iters"], learning_rate=d["lr"],
        Nx=d.get("nx", 1), Ny=d.get("ny", 1), N_layers=nl, N_freq=nf, PER_LAYER_THICKNESS=list(d["thick"]),
        real_min_eps=d.get("rmin", -20.0), real_max_eps=d.get("rmax", 20.0), imag_min_eps=d.get("imin", 0.0),
        imag_max_eps=d.get("imax", 3.0), L=d.get("L", 1.0), absorption_loss=d.get("abs", False), seed=d.get("seed", 7),
        avoid_zero_eps=d.get("avoid", True), TRCWA_NG=d.get("ng", 1), n_neurons=d.get("neurons", 12), hidden_layers=d.get("hidden", 2),
        eps_oversampling=d.get("over", 1), siren_omega=d.get("omega", 1.0),
        freq_distribution=d.get("dist", "linear"), reg_loss_weight=d.get("regw", 0.05), use_regularization_loss=d.get("reg", True),
        physical_wavelength_range=[d.get("wl", [1.0, 8.0])[0] * 1e-6, d.get("wl", [1.0, 8.0])[1] * 1e-6],
        add_noise=d.get("noise", False), noise_scale=d.get("noise_scale", 0.001),
    )
    R = g.uniform(0, 1, nf)
    T = g.uniform(0, 1, nf) * (1 - R)
    if d.get("binary"):
        R = (g.random(nf) < 0.5).astype(float)
        T = 1 - R
    c.target_reflectance_spectrum = [float(x) for x in R]
    c.target_transmittance_spectrum = [float(x) for x in T]
    if d.get("solver") == "FDTD":
        c.solver = "FDTD"
        c.real_min_eps, c.real_max_eps = 1.0, 8.0
        c.FDTD_niter = d.get("niter", 150)
        c.FDTD_min_gridpoints_per_unit_magnitude = 6
        c.FDTD_pml_thickness = 1.0
        c.FDTD_free_space_distance = 0.8
        c.FDTD_source_position = [1.2, 1.0]
        c.FDTD_gridpoints_from_material_to_detector = 1
        c.physical_wavelength_range = [0.9e-6, 1.4e-6]
        c.PER_LAYER_THICKNESS = [0.5]
    if d.get("near"):  # targets that are (nearly) met by a design close to the start
        import nidn, torch

        q = copy.deepcopy(c)
        q.target_frequencies = nidn.compute_target_frequencies(q.physical_wavelength_range[0], q.physical_wavelength_range[1], q.N_freq, q.freq_distribution)
        with torch.no_grad():
            R, T = nidn.compute_spectrum(torch.tensor(start_eps(d, c) + d["near"]), q)
        c.target_reflectance_spectrum, c.target_transmittance_spectrum = [max(0.0, x) for x in nums(R)], [max(0.0, x) for x in nums(T)]
    return c


def start_eps(d, c):
    g = np.random.default_rng(d["s"])
    shape = (c.Nx, c.Ny, c.N_layers, c.N_freq)
    e = g.uniform(c.real_min_eps, c.real_max_eps, shape) + 1j * g.uniform(c.imag_min_eps, c.imag_max_eps, shape)
    if d.get("outside"):  # parameters beyond the allowed range (clipped by the mapping)
        e = e * 1.3
    return e


def loss_of(R, T, c, L, absorption):
    """own statement of the spectrum loss; returns value, whether some R + T exceeds 1, smallest |R + T - 1|"""
    tot, ren, margin = 0.0, False, np.inf
    n = len(R)
    for r, t, tr, tt in zip(R, T, c.target_reflectance_spectrum, c.target_transmittance_spectrum):
        margin = min(margin, abs(r + t - 1))
        if r + t > 1:
            ren = True
            r, t = r / (r + t), t / (r + t)
        tot += abs(r - tr) ** L + abs(t - tt) ** L
        if absorption:
            tot += abs((1 - r - t) - (1 - tr - tt)) ** L
    return tot / ((3 if absorption else 2) * n), ren, margin


def reg_of(p, L):
    p = np.asarray(p, float)
    return float(np.mean(np.minimum(p**L, (1 - p) ** L)))


class Judge:
    """Recomputes what every iteration of a run must have seen, from the recorded parameters."""

    def __init__(self, d):
        import nidn

        self.d = d
        self.c = base_cfg(d)
        self.c.target_frequencies = nidn.compute_target_frequencies(
            self.c.physical_wavelength_range[0], self.c.physical_wavelength_range[1], self.c.N_freq, self.c.freq_distribution
        )
        if self.c.type == "classification":
            self.c.material_collection = nidn.MaterialCollection(self.c.target_frequencies)
            self.c.N_materials = self.c.material_collection.N_materials
            self.c.out_features = self.c.N_materials
        else:
            self.c.out_features = 2
        self.memo = {}

    def evaluate(self, model, state):
        """(loss, unphysical, L1, margin, loss of the spectrum alone) of a design"""
        import torch, nidn

        key = tuple(v.numpy().tobytes() for v in state.values())
        if key in self.memo:
            return self.memo[key]
        m = copy.deepcopy(model)
        m.load_state_dict(state)
        if hasattr(m, "calls"):
            m.calls = -(10**9)  # no scheduled failures
        c = copy.deepcopy(self.c)
        with torch.no_grad():
            eps, ids = nidn.model_to_eps_grid(m, c)
            if bool(torch.isnan(eps).any()):
                self.memo[key] = None  # numerical failure
                return None
            R, T = nidn.compute_spectrum(eps, c)
        R, T = nums(R), nums(T)
        loss, ren, margin = loss_of(R, T, c, c.L, c.absorption_loss)
        l1, _, _ = loss_of(R, T, c, 1, False)
        spectrum = loss
        if c.type == "classification" and c.use_regularization_loss:
            loss += c.reg_loss_weight * reg_of(ids.numpy(), c.L)
        out = (loss, ren, l1, margin, spectrum)
        self.memo[key] = out
        return out


def iterations(rec, n):
    """the parameters evaluated in each of the n iterations"""
    ev = rec.evals()
    if len(ev) == n:
        return ev
    if n and len(ev) % n == 0 and len(ev):
        return ev[:: len(ev) // n]
    raise Violation(f"{len(ev)} model evaluations in {n} iterations", key="evaluations")


def same(a, b):
    import torch

    return list(a) == list(b) and all(torch.equal(a[k].detach(), b[k].detach()) for k in a)


def check_best(evals, vals, final, extra=(), exact=False):
    """the final parameters are those of the best of the given evaluations; vals: (loss, unphysical, ..., margin)"""
    if not evals:
        return None
    # float noise around R + T = 1 makes the validity of such an iteration a matter of rounding
    sure = [v for v in vals if v[3] > 1e-9]
    if len(sure) < len(vals):
        amb = True
    else:
        amb = False
    best = min((v[1], v[0]) for v in vals)
    ok = False
    for e, v in zip(evals, vals):
        if same(e, final):
            tol = 1e-9 * abs(best[1]) + (1e-14 if exact else 1e-9)
            if (v[1] == best[0] and v[0] <= best[1] + tol) or amb:
                ok = True
                if amb and not (v[1] == best[0] and v[0] <= best[1] + tol):
                    # acceptable only if flipping the ambiguous validities can make it the best
                    phys = [x for x in vals if not x[1] or x[3] <= 1e-9]
                    low = min((x[0] for x in phys if x[3] > 1e-9), default=np.inf)
                    ok = v in phys and v[0] <= low + tol or not phys
                if ok:
                    break
    if not ok:
        where = [k for k, e in enumerate(evals) if same(e, final)]
        raise Violation(
            f"returned parameters are those of evaluation(s) {where}, but the best (unphysical, loss) is {best}; "
            f"losses {[(round(v[0], 8), bool(v[1])) for v in vals]}",
            key="best",
        )
    return amb
