"""C12: training under injected numerical failures."""
import contextlib, itertools
import numpy as np
from mon.core import Obs, Skip, Violation, require
from mon.util import *
from mon import traincase as TC
from mon.checks.c13_repro import settings

PROPERTY = "C12"
LEVEL = "fault_enumeration"
RULE = (
    "Fault injection: every subset of failing iterations of runs of up to 5 iterations (quick: 4) for free models on TRCWA, random subsets of longer runs, "
    "of voxel/siren/nerf/classification models and of FDTD runs, and runs of configurations that were trained with another model before; failing means the model's output has NaN in all or one real or "
    "imaginary part(s). A trace monitor checks the next parameters, learning rates, logs and the returned design; further runs inject other errors, in the model, in any operation of an iteration or in its backward pass, "
    "which must surface. Non-trivial: at least one iteration failed; distinct by model kind, NaN kind and failure pattern."
)
ASSUMPTIONS = ["one model evaluation per iteration", "what the optimizer's momentum does after a failure is left open"]
BUDGET = {"quick": 40, "thorough": 600}
REQUIRED = {"injected failures": 60, "failures after a success": 5, "other errors surfaced": 5, "errors in the midst of an iteration": 5}


def cases(rng, tier):
    out = []
    kinds = ["real", "imag", "both", "one_real", "one_imag"]

    def base(**k):
        d = dict(s=seed(rng), nl=rng.choice([1, 2]), nf=rng.choice([1, 2]), lr=rng.choice([0.01, 0.3, 3.0]), thick=[rnd(rng, 0.1, 0.9)],
                 imin=rng.choice([0.0, 0.0, -0.4]), L=rng.choice([1.0, 2.0]), mk="own", model="voxel", type="regression", seed=rng.randrange(999),
                 avoid=rng.random() < 0.7, ng=1)
        d.update(k)
        return d

    # FDTD first (slow)
    for i in range(3 if tier == "quick" else 40):
        n = 3
        out.append(base(solver="FDTD", nl=1, nf=1, thick=[0.5], iters=n, nan=sorted(rng.sample(range(n), rng.choice([1, 2]))), nk=kinds[i % 5], lr=0.5, imin=0.0, niter=90))
    for mk in ("siren", "nerf", "voxel", "class"):
        for i in range(3 if tier == "quick" else 60):
            n = rng.choice([3, 5, 8])
            out.append(base(mk=mk, model=mk if mk != "class" else rng.choice(["siren", "nerf"]), type="classification" if mk == "class" else "regression",
                            iters=n, nan=sorted(rng.sample(range(n), rng.randrange(1, n))), nk="both", lr=rng.choice([1e-3, 1e-2]) if mk != "voxel" else 1.0))
    top = 4 if tier == "quick" else 5
    i = 0
    for n in range(1, top + 1):
        for k in range(1, n + 1):
            for sub in itertools.combinations(range(n), k):
                for nk in kinds if tier != "quick" else [kinds[i % 5]]:
                    out.append(base(iters=n, nan=list(sub), nk=nk))
                i += 1
    for i in range(25 if tier == "quick" else 2000):
        n = rng.choice([6, 10, 15, 30])
        p = rng.choice([0.1, 0.3, 0.6])
        sub = [k for k in range(n) if rng.random() < p]
        out.append(base(iters=n, nan=sub, nk=rng.choice(kinds)))
    for i in range(6 if tier == "quick" else 60):  # learning rates far below the usual ones
        n = rng.choice([6, 12, 24])
        out.append(base(iters=n, nan=sorted(rng.sample(range(n - 1), n * 2 // 3)), nk=rng.choice(kinds), lr=[1e-3, 1e-4, 1e-5, 1e-2][i % 4]))
    for i in range(10 if tier == "quick" else 100):
        n = rng.choice([2, 4])
        out.append(base(iters=n, nan=[], nk="real", err=rng.choice(["RuntimeError", "KeyError", "ZeroDivisionError", "TypeError", "AssertionError"]), at=rng.randrange(n)))
    errs = ["RuntimeError", "KeyError", "ZeroDivisionError", "OverflowError", "FloatingPointError", "ArithmeticError", "AssertionError", "IndexError", "MemoryError", "LookupError", "OSError"]
    for i in range(26 if tier == "quick" else 300):  # an error somewhere in the calculations of an iteration
        n = rng.choice([1, 2, 4])
        out.insert(i * 3, base(iters=n, nan=[], nk="real", err=errs[i % len(errs)], at=rng.randrange(n), deep=rng.choice([rng.randrange(40, 200), rng.randrange(60, 120), rng.randrange(1, 400)])))
    for i in range(8 if tier == "quick" else 60):  # an error while the gradient is computed
        n = rng.choice([1, 2, 4])
        out.insert(i * 5, base(iters=n, nan=[], nk="real", err=errs[i % len(errs)], at=rng.randrange(n), back=True))
    for i in range(8 if tier == "quick" else 100):  # after an earlier run whose model has been replaced or changed by hand since
        n = rng.choice([1, 2, 4])
        out.append(base(iters=n, nan=sorted({0} | {k for k in range(n) if rng.random() < 0.5}), nk=rng.choice(kinds), earlier=rng.choice([1, 3])))
    out.append(base(solver="FDTD", nl=1, nf=1, thick=[0.5], iters=2, nan=[], nk="real", err="steps", at=0, niter=2, imin=0.0))
    return out


def tripping(model, at, n, exc):
    """from the evaluation `at` of the model on, the n-th operation on tensors fails"""
    import torch
    from torch.overrides import TorchFunctionMode

    class Trip(TorchFunctionMode):
        left = n

        def __torch_function__(self, func, types, args=(), kwargs=None):
            if model.calls > at:
                self.left -= 1
                if self.left == 0:
                    raise exc
            return func(*args, **(kwargs or {}))

    return Trip()


def run(case):
    import nidn, torch
    from torch.nn.modules import module as M

    d = case
    j = TC.Judge(d)
    c = TC.base_cfg(d)
    nan = set(d["nan"])
    o = Obs()
    n = d["iters"]
    err = d.get("err")
    exc = None
    handle = None
    if d["mk"] == "own":
        if err and err != "steps":
            exc = getattr(__import__("builtins"), err)("injected")
        if d.get("earlier"):
            c.model = TC.own_model(TC.start_eps(dict(d, s=d["s"] + 5), c))
            c.iterations = d["earlier"]
            c = nidn.run_training(c)
            c.iterations = n
        c.model = TC.own_model(TC.start_eps(d, c), nan=nan, nan_kind=d["nk"], raise_at=(d["at"], exc) if exc and not d.get("deep") and not d.get("back") else None, raise_back=(d["at"], exc) if d.get("back") else None)
    before = settings(c)
    trip = tripping(c.model, d["at"], d["deep"], exc) if d.get("deep") else contextlib.nullcontext()
    with TC.Recorder() as rec:
        if d["mk"] != "own":
            calls = [0]

            def hook(m, args, out):  # the whole model's output becomes NaN
                if rec.depth == 0:
                    calls[0] += 1
                    if calls[0] - 1 in nan:
                        return out * float("nan")

            handle = M.register_module_forward_hook(hook)
        try:
            try:
                with trip:
                    r = nidn.run_training(c)
            except Exception as e:
                if err:
                    if exc is not None and "deep" not in d and "back" not in d:  # (operators may turn one error into another)
                        require(e is exc, f"injected {exc!r}, but {e!r} surfaced")
                    o.add("other errors surfaced")
                    o.add("errors in the midst of an iteration", int("deep" in d))
                    o.add("errors in the backward pass", int("back" in d))
                    o.sig = (err, d["at"], n, d.get("deep"), d.get("back"))
                    return o
                raise
        finally:
            if handle:
                handle.remove()
    if d.get("deep") and trip.left > 0:
        raise Skip("the run took fewer operations")
    if err:
        raise Violation(f"an error that is no numerical failure ({err}) was swallowed by training")
    evals = TC.iterations(rec, n)
    model = r.model
    steps = [e[1] for e in rec.events if e[0] == "step"]
    fails = 0
    bests = []  # (evaluation index, value) of successes so far
    good = []
    log = list(r.results.loss_log)
    si = 0
    recov = 0
    for k in range(n):
        v = None if k in nan else j.evaluate(model, evals[k])
        if v is None and k not in nan:
            nan = nan | {k}  # became NaN without help
        if v is None:
            fails += 1
            want = [evals[0]] if not good else None
            nxt = evals[k + 1] if k + 1 < n else dict(model.state_dict())
            if want:
                require(TC.same(nxt, evals[0]), f"after the failure in iteration {k} (no success before) the parameters are not the initial ones")
            else:
                amb = TC.check_best([evals[g] for g in good], [vals[g] for g in good], nxt)
                recov += good[-1] != 0
        else:
            vals = dict() if not good else vals
            vals[k] = v
            good.append(k)
            require(si < len(steps), f"iteration {k} made no optimizer step")
            for lr in steps[si]:
                require(abs(lr / (d["lr"] * 0.5**fails) - 1) < 1e-9, f"iteration {k} after {fails} failures: learning rate {lr}, expected {d['lr'] * 0.5 ** fails}")
            si += 1
    require(si == len(steps), f"{len(steps)} optimizer steps for {si} successful iterations")
    require(len(log) == len(good) == len(r.results.L1_errs) == len(r.results.weighted_average_log), f"{len(good)} successful iterations but {len(log)} log entries")
    for x, k in zip(log, good):
        require(abs(x - vals[k][0]) < 1e-6 * (1 + abs(x)), f"log entry of iteration {k} is {x}, its design has {vals[k][0]}")
    after = settings(r)
    for k, v in before.items():
        if k != "PER_LAYER_THICKNESS":
            require(k in after and after[k] == v, f"training with failures changed the setting {k} from {v!r} to {after.get(k)!r}")
    o.add("settings compared", len(before))
    final = dict(model.state_dict())
    require(TC.same(final, dict(r.best_model_state_dict)), "returned model and stored best state differ")
    if good:
        TC.check_best([evals[g] for g in good], [vals[g] for g in good], final)
    else:
        require(TC.same(final, evals[0]), "no iteration succeeded, but the returned parameters are not the initial ones")
    o.add("injected failures", fails)
    o.add("successful iterations", len(good))
    o.add("failures after a success", recov)
    o.add("runs without any success", not good)
    o.add("runs that failed first", bool(nan) and min(nan) == 0)
    o.add("runs that failed last", n - 1 in nan)
    o.seen("model", d["mk"] + ("/FDTD" if d.get("solver") else "") + "/" + d["nk"])
    o.nontrivial = fails > 0
    o.sig = (d["mk"], d.get("solver"), d["nk"], n, sorted(nan), d.get("earlier"))
    o.sample = {"failed": sorted(nan), "log": [round(x, 5) for x in log[:5]]}
    return o
