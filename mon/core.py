"""Runner shared by all monitors.

A check module provides
    PROPERTY   property id
    RULE       text: how cases are made and what makes one non-trivial
    cases(rng, tier) -> list of JSON-able case dicts   (all randomness from rng)
    run(case)  -> Obs                                   (runs the real code under the monitors)
The runner executes the cases in forked workers, collects what the monitors observed,
writes evidence/<id>.json and decides the exit code:
    0 held on everything explored   1 violation   3 inconclusive (monitor saw too little / harness error)
"""
import mon.nocache
import os, sys, json, time, hashlib, traceback, signal, importlib, tempfile, shutil, random
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """Raised by a monitor when the observed behaviour contradicts the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case turned out to lie outside the property's domain (counted, never a verdict)."""


class Obs:
    """What the monitors of one case observed."""

    def __init__(self):
        self.count = {}
        self.sig = None
        self.nontrivial = True
        self.sample = None

    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + int(n)

    def peak(self, name, v):
        v = float(v)
        k = "max:" + name
        if v > self.count.get(k, float("-inf")):
            self.count[k] = v

    def seen(self, name, v):
        self.count.setdefault("set:" + name, set()).add(str(v))


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def _from_repo(tb):
    """True if the exception passed through code of the repository under test."""
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


_MOD = None
_CASE_LIMIT = 240


def _work(arg):
    idx, case = arg
    import torch

    torch.set_num_threads(1)
    t0 = time.time()
    out = {"idx": idx, "status": "ok", "obs": None}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CASE_LIMIT)
    cwd = os.getcwd()
    try:
        obs = _MOD.run(case)
        out["obs"] = obs
    except Violation as e:
        out.update(status="violation", msg=str(e), key=e.key)
    except Skip as e:
        out.update(status="skip", msg=str(e))
    except _Timeout:
        out.update(
            status="violation",
            msg=f"no result within {_CASE_LIMIT} s (hang)",
            key="hang",
        )
    except BaseException as e:
        txt = traceback.format_exc()
        if isinstance(e, (MemoryError, KeyboardInterrupt)):
            out.update(status="error", msg=txt)
        elif _from_repo(e.__traceback__):
            out.update(
                status="violation",
                msg=f"unexpected {type(e).__name__} from the code under test: {e}\n{txt}",
                key="exception:" + type(e).__name__,
            )
        elif isinstance(e, (ValueError, IndexError, TypeError, KeyError, ArithmeticError)):
            # what was observed has not the form (length, shape, kind of value) the oracle works with
            out.update(status="violation", msg=f"the observed result has not the required form ({type(e).__name__}: {e})\n{txt}", key="form:" + type(e).__name__)
        else:
            out.update(status="error", msg=txt)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
    out["t"] = time.time() - t0
    return out


def _setup_env():
    import warnings

    warnings.filterwarnings("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import torch

    torch.set_num_threads(1)
    import nidn

    real = os.path.realpath(nidn.__file__)
    if not real.startswith(REPO + "/"):
        print("nidn is not imported from /repo:", real)
        sys.exit(3)
    from loguru import logger

    logger.remove()  # the log sinks are not observed; individual monitors add their own


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "open":
                out.append(d)
    return out


def case_rng(seed, prop, extra=""):
    h = hashlib.sha256(f"{seed}/{prop}/{extra}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def main(modname, budget_quick=40.0, budget_thorough=600.0):
    global _MOD
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        tier = sys.argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="nidnmon_")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.environ["MON_SCRATCH"] = scratch
    code = 3
    try:
        try:
            _setup_env()
            mod = importlib.import_module("mon.checks." + modname)
        except BaseException as e:
            # an import failure of the package under test: every property is unusable
            traceback.print_exc()
            if isinstance(e, SystemExit):
                raise
            prop = modname.split("_")[0].upper()
            if _from_repo(e.__traceback__) and not isinstance(e, (ImportError, AttributeError)):
                p = _write_replay(prop, {"import": True}, traceback.format_exc(), seed, tier)
                print(f"VIOLATION property={prop} replay={p}")
                return 1
            return 3
        _MOD = mod
        code = _run(mod, tier, seed, t0, budget_quick if tier == "quick" else budget_thorough)
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _write_replay(prop, case, msg, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(
            {"property": prop, "case": case, "message": msg, "seed": seed, "tier": tier},
            f,
            indent=1,
            default=str,
        )
    return p


def _run(mod, tier, seed, t0, budget):
    prop = mod.PROPERTY
    budget = getattr(mod, "BUDGET", {}).get(tier, budget)
    rng = case_rng(seed, prop)
    cases = mod.cases(rng, tier)
    nproc = int(os.environ.get("MON_PROCS", "8"))
    results = []
    stopped = False
    min_cases = getattr(mod, "MIN_CASES", {}).get(tier, len(cases) if tier == "quick" else 0)
    ctx = mp.get_context("fork")
    viol = []
    known = load_known(prop)
    known_hit = {}
    if nproc > 1 and len(cases) > 1:
        pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, "MAXTASKS", None))
        it = pool.imap_unordered(_work, list(enumerate(cases)), chunksize=1)
        try:
            for k in range(len(cases)):
                r = it.next(timeout=_CASE_LIMIT + 60)
                results.append(r)
                if r["status"] == "violation" and not _match_known(r, known):
                    viol.append(r)
                    if len(viol) >= 5:
                        stopped = True
                        break
                if time.time() - t0 > budget and len(results) >= min_cases:
                    stopped = True
                    break
                if viol and time.time() - t0 > budget:
                    stopped = True
                    break
        except mp.TimeoutError:
            print("worker pool gave no answer")
            pool.terminate()
            return 3
        pool.terminate()
        pool.join()
    else:
        for k, c in enumerate(cases):
            r = _work((k, c))
            results.append(r)
            if r["status"] == "violation" and not _match_known(r, known):
                viol.append(r)
                if len(viol) >= 5:
                    break
            if time.time() - t0 > budget and len(results) >= min_cases:
                stopped = True
                break

    counts, sets = {}, {}
    sigs = set()
    nontriv = 0
    ok = skips = errs = 0
    samples = []
    skip_reasons = {}
    for r in sorted(results, key=lambda r: r["idx"]):
        case = cases[r["idx"]]
        if r["status"] == "ok":
            ok += 1
            o = r["obs"]
            if o is None:
                o = Obs()
            for k, v in o.count.items():
                if k.startswith("max:"):
                    counts[k] = max(counts.get(k, float("-inf")), v)
                elif k.startswith("set:"):
                    sets.setdefault(k, set()).update(v)
                else:
                    counts[k] = counts.get(k, 0) + v
            s = o.sig if o.sig is not None else json.dumps(case, sort_keys=True, default=str)
            s = hashlib.sha256(str(s).encode()).hexdigest()
            if o.nontrivial and s not in sigs:
                sigs.add(s)
                nontriv += 1
                if len(samples) < 5:
                    samples.append({"case": _short(case), "observed": _short(o.sample)})
        elif r["status"] == "skip":
            skips += 1
            skip_reasons[r["msg"]] = skip_reasons.get(r["msg"], 0) + 1
        elif r["status"] == "error":
            errs += 1
        elif r["status"] == "violation":
            m = _match_known(r, known)
            if m:
                known_hit[m["id"]] = m
    slow = max(results, key=lambda r: r["t"]) if results else None
    cov = {
        "evaluations": ok + len(viol),
        "distinct_nontrivial": nontriv,
        "rule": mod.RULE,
        "samples": samples,
        "cases_generated": len(cases),
        "cases_outside_domain": skips,
        "outside_domain_reasons": skip_reasons,
        "harness_errors": errs,
        "stopped_by_budget": bool(stopped and not viol),
        "observed": {k: (round(v, 12) if isinstance(v, float) else v) for k, v in sorted(counts.items())},
        "observed_sets": {k[4:]: sorted(v)[:40] for k, v in sorted(sets.items())},
        "observed_set_sizes": {k[4:]: len(v) for k, v in sorted(sets.items())},
        "known_findings_seen": sorted(known_hit),
    }
    if slow:
        cov["slowest_case_s"] = round(slow["t"], 2)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for r in results:
        if r["status"] == "error":
            print("HARNESS ERROR in case", json.dumps(cases[r["idx"]], default=str)[:600])
            print(r["msg"])
            break
    for m in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {m['what']}")
    for r in viol[:3]:
        case = cases[r["idx"]]
        p = _write_replay(prop, case, r["msg"], seed, tier)
        print("--- " + r["msg"][:1500])
        print("    case:", json.dumps(case, default=str)[:800])
        print(f"VIOLATION property={prop} replay={p}")
    print(
        f"{prop} {tier} seed={seed}: {ok} held, {len(viol)} violated, {skips} outside domain, "
        f"{errs} harness errors, {nontriv} distinct non-trivial, {ev['wall_s']} s"
    )
    if viol:
        return 1
    need = getattr(mod, "MIN_NONTRIVIAL", 5)
    if errs:
        print("inconclusive: the harness failed on some cases")
        return 3
    if nontriv < need:
        print(f"inconclusive: only {nontriv} distinct non-trivial cases observed (need {need})")
        return 3
    for k, n in getattr(mod, "REQUIRED", {}).items():
        if counts.get(k, 0) < n:
            print(f"inconclusive: monitor counter {k}={counts.get(k, 0)} < {n}")
            return 3
    return 0


def _match_known(r, known):
    for m in known:
        if r.get("key") is not None and r.get("key") == m.get("key"):
            return m
    return None


def _short(x, n=700):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "..."
