"""C16: material permittivities are those of the tabulated data."""
import csv, glob, os
import numpy as np
from mon.core import Obs, Violation, Skip, require, REPO
from mon.util import *

PROPERTY = "C16"
RULE = (
    "Collections for random frequency lists (1-40 entries; linear/log grids, arbitrary order, repeated, far outside of the tables, exactly on and half-way between rows; list/array) and skip lists; "
    "all permittivities are compared with (n+ik)^2 of the nearest rows read from the data files by an independent parser, by name and by matrix row; the "
    "directory order is varied by fault injection into the directory listing; closest materials of random grids. Non-trivial: more than one row of a table was used; distinct by case."
)
ASSUMPTIONS = ["ties in distance may go to either row"]
BUDGET = {"quick": 25, "thorough": 300}
REQUIRED = {"permittivities compared": 2000, "closest materials compared": 100}

_T = None


def tables():
    global _T
    if _T is None:
        _T = {}
        for f in glob.glob(REPO + "/nidn/materials/data/*.csv"):
            rows = []
            for k, line in enumerate(open(f)):
                if k and line.strip():
                    rows.append([float(x) for x in line.strip().split("\t")[:3]])
            _T[os.path.basename(f)[:-4]] = np.array(rows)
    return _T


def cases(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 5000):
        out.append(dict(s=seed(rng), part="table", kind=rng.choice(["linear", "log", "random", "rows", "outside", "repeat", "half"]), n=rng.choice([1, 1, 2, 3, 7, 20, 40]),
                        form=rng.choice(["array", "list"]), skip=rng.choice(["none", "none", "some", "one", "unknown", "empty"]), order=rng.choice(["as is", "reversed", "shuffled"])))
    for i in range(60 if tier == "quick" else 3000):
        out.append(dict(s=seed(rng), part="closest", n=rng.choice([1, 2, 5]), shape=[rng.choice([1, 2, 3]), rng.choice([1, 2, 4]), rng.choice([1, 3])],
                        kind=rng.choice(["random", "material", "near"]), skip=rng.choice(["none", "some"])))
    return out


class Shuffled:
    """Fault injection: another file system order of directory entries."""

    def __init__(self, mode, g):
        self.mode, self.g = mode, g

    def __enter__(self):
        self.s, self.l = os.scandir, os.listdir
        mode, g = self.mode, self.g

        def order(x):
            x = list(x)
            if mode == "reversed":
                x.reverse()
            elif mode == "shuffled":
                x = [x[i] for i in g.permutation(len(x))]
            return x

        class It(list):
            def __enter__(s):
                return iter(s)

            def __exit__(s, *a):
                pass

            def close(s):
                pass

        orig_s, orig_l = self.s, self.l
        os.scandir = lambda *a, **k: It(order(orig_s(*a, **k)))
        os.listdir = lambda *a, **k: order(orig_l(*a, **k))

    def __exit__(self, *a):
        os.scandir, os.listdir = self.s, self.l


def run(case):
    import nidn, torch

    d = case
    g = gen(d)
    T = tables()
    n = d["n"]
    k = d.get("kind")
    if d["part"] == "closest" or k == "random":
        f = 1 / (g.uniform(0.3, 12, n) if d["s"] % 3 else g.uniform(0.15, 0.5, n))
    elif k == "linear":
        f = np.linspace(0.05, 2, n)
    elif k == "log":
        f = np.logspace(-1.5, 0.3, n)
    elif k in ("rows", "half"):
        t = T[sorted(T)[int(g.integers(len(T)))]][:, 0]
        j = g.integers(len(t) - 1, size=n)
        f = 1 / (t[j] if k == "rows" else 0.5 * (t[j] + t[j + 1]) * (1 + g.choice([-1e-6, 1e-6], n)))
    elif k == "outside":
        f = g.choice([1e-4, 1e-2, 20.0, 500.0], n)
    elif k == "repeat":
        f = np.repeat(1 / g.uniform(0.3, 12), n)
    names = sorted(T)
    skip = {"none": None, "empty": [], "unknown": ["unobtainium", "oxide", "", "Germanium", names[0] + "2"], "one": [names[int(g.integers(len(names)))]], "some": [names[i] for i in g.permutation(len(names))[: int(g.integers(1, len(names) - 1))]]}[d["skip"]]
    ff = f if d.get("form", "array") == "array" else ([float(x) for x in f] if d["form"] == "list" else torch.tensor(f))
    ref = nidn.MaterialCollection(ff, to_skip=skip)
    with Shuffled(d.get("order", "as is"), g):
        mc = nidn.MaterialCollection(ff, to_skip=skip)
    o = Obs()
    try:
        load = internal("nidn.trcwa.load_material_data", "_load_material_data")
    except ImportError:
        load = None
    want = set(names) - set(skip or [])
    try:
        nidn.MaterialCollection(ff[:0], to_skip=skip)
    except Exception:
        pass
    else:
        raise Violation("a collection for no frequencies at all was made")
    require(sorted(mc.material_names) == sorted(want), f"materials {mc.material_names}, expected {sorted(want)}")
    require(list(mc.material_names) == list(ref.material_names), f"the order of the materials depends on the directory order: {mc.material_names}")
    require(mc.N_materials == len(want), f"N_materials {mc.N_materials} for {len(want)} materials")
    require(tuple(mc.epsilon_matrix.shape) == (len(want), n), f"matrix of shape {tuple(mc.epsilon_matrix.shape)} for {len(want)} materials, {n} frequencies")
    require(mc.epsilon_matrix.is_complex(), "real permittivity matrix")
    used = 0
    for i, name in enumerate(mc.material_names):
        e = mc[name].numpy()
        require(e.shape == (n,), f"permittivities of {name} have shape {e.shape} for {n} frequencies")
        require(np.array_equal(e, mc.epsilon_matrix[i].numpy()), f"matrix row {i} is not the permittivity of {name}")
        t = T[name]
        rows = set()
        for j in range(n):
            dist = np.abs(t[:, 0] - 1 / f[j])
            near = np.nonzero(dist <= dist.min() * (1 + 1e-9) + 1e-12)[0]
            ok = [r for r in near if abs((t[r, 1] + 1j * t[r, 2]) ** 2 - e[j]) <= 1e-9 * (1 + abs(e[j]))]
            if not ok:
                r = near[0]
                raise Violation(f"{name} at frequency {f[j]} (wavelength {1 / f[j]}): permittivity {e[j]}, nearest row {t[r].tolist()} gives {(t[r, 1] + 1j * t[r, 2]) ** 2}")
            rows.add(int(ok[0]))
        used = max(used, len(rows))
        if load is not None:
            # the loader for a single file uses the same data
            e1 = load(os.path.join(REPO, "nidn/materials/data", name + ".csv"), ff).reshape(-1).numpy()
            require(e1.shape == e.shape and np.array_equal(e1, e), f"single-file loader: {name} is {e1[:3]}, the collection has {e[:3]}")
            o.add("single-file values compared", n)
        o.add("permittivities compared", n)
    for bad in ["unobtainium", "", "germaniu", (skip or ["x"])[0] if skip else "x"]:
        if bad in want:
            continue
        try:
            mc[bad]
        except Exception:
            o.add("unknown names rejected")
        else:
            raise Violation(f"unknown material {bad!r} was accepted")
    # collections for other frequencies of the same number, range and nearly the same values have their own rows
    for h in range(2):
        f2 = np.sort(f)
        if h == 0 and n > 2:
            f2[1:-1] = np.sort(g.uniform(f2[0], f2[-1], n - 2))
        else:
            name = names[int(g.integers(len(names)))]
            t = T[name][:, 0]
            b = 2 / (t[:-1] + t[1:])
            f2 = b[g.integers(len(b), size=n)]
        for sgn in (1, -1):
            f3 = f2 * (1 + sgn * (1e-5 if h else 0))
            m2 = nidn.MaterialCollection(f3)
            for name in m2.material_names:
                t = T[name]
                e2 = m2[name].numpy()
                dist = np.abs(t[:, :1] - 1 / f3)
                lo = dist.min(0)
                fit = np.abs((t[:, 1] + 1j * t[:, 2])[:, None] ** 2 - e2) <= 1e-9 * (1 + np.abs(e2))
                good = np.any(fit & (dist <= lo * (1 + 1e-9) + 1e-12), 0)
                require(e2.shape == (n,) and np.all(good), f"{name}: a later collection for the wavelengths {1 / f3[~good]} has the permittivities {e2[~good]}, not those of the nearest rows")
                o.add("permittivities of later collections compared", n)
    # a second collection does not alter the first one
    snap = mc.epsilon_matrix.clone(), list(mc.material_names)
    nidn.MaterialCollection([0.37, 0.9], to_skip=names[:2])
    require(torch.equal(snap[0], mc.epsilon_matrix) and snap[1] == list(mc.material_names), "creating another collection changed the first one")
    if d["part"] == "closest":
        try:
            fc = internal("nidn.materials.find_closest_material", "_find_closest_material")
        except ImportError:
            raise Skip("closest-material search not found")
        c = cfg(Nx=d["shape"][0], Ny=d["shape"][1], N_layers=d["shape"][2], N_freq=n)
        c.target_frequencies = f
        M = mc.epsilon_matrix.numpy()
        sh = tuple(d["shape"])
        if k == "random":
            e = g.uniform(-5, 20, sh + (n,)) + 1j * g.uniform(0, 3, sh + (n,))
        else:
            idx = g.integers(len(M), size=sh)
            e = M[idx] + (0.01 * g.normal(size=sh + (n,)) if k == "near" else 0)
        c2 = cfg(Nx=1, Ny=1, N_layers=len(M), N_freq=n)
        c2.target_frequencies = f
        d0 = fc(torch.tensor(M[None, None]), c2, mc)[0].numpy().reshape(-1)
        require(d0.max() < 1e-9, f"the permittivity of {mc.material_names[int(d0.argmax())]} is {d0.max()} from the closest material")
        dist, ind = fc(torch.tensor(e), c, mc)
        D = np.abs(e[..., None, :] - M).mean(-1)
        dist, ind = dist.numpy(), ind.numpy()
        require(dist.shape == sh and ind.shape == sh, f"closest materials of shape {ind.shape}")
        require(np.abs(dist - D.min(-1)).max() < 1e-9 * (1 + D.max()), f"distances {dist.ravel()[:3]}, expected {D.min(-1).ravel()[:3]}")
        got = np.take_along_axis(D, ind[..., None], -1)[..., 0]
        require(np.all(got <= D.min(-1) + 1e-9), f"closest materials {ind.ravel()[:5]}, expected {D.argmin(-1).ravel()[:5]}")
        o.add("closest materials compared", ind.size)
    o.seen("kind", (d["part"], k, d["skip"], d.get("order")))
    o.nontrivial = used > 1 or d["part"] == "closest" or n == 1
    o.sample = {"f": [round(float(x), 4) for x in f[:3]], "eps": str(mc.epsilon_matrix[0, :2].numpy())}
    return o
