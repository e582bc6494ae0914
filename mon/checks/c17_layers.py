"""C17: built layers have the requested geometry."""
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *

PROPERTY = "C17"
RULE = (
    "Histories of 1-6 layers (uniform, square, circle) built by one or several builders on random grids (1x1 to 160x160), sizes (0-0.6), centres (in and outside the cell), material pairs and frequency grids, also from configurations which have seen a classification run at other frequencies; "
    "each is compared point by point with the membership computed from its relative coordinates, and again after the others were built; each is then written to, which must change nothing else. Holes without rounding must be mirror-symmetric. Non-trivial: a layer contains both materials; distinct by case."
)
ASSUMPTIONS = ["points within 1e-9 of the boundary may belong to either material", "a is the margin of the square hole, so that it spans (a, 1-a)"]
BUDGET = {"quick": 25, "thorough": 200}
REQUIRED = {"points compared": 5000, "layers with both materials": 50, "mirror images": 8}


def cases(rng, tier):
    out = []
    for i in range(150 if tier == "quick" else 8000):
        L = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            k = rng.choice(["uniform", "square", "square", "circle", "circle"])
            a = dict(k=k)
            if k == "square" and rng.random() < 0.8:
                a["a"] = rng.choice([rnd(rng, 0, 0.5), 0.25, 0.0, 0.5, rnd(rng, 0.5, 0.7), rnd(rng, 0.48, 0.5)])
            if k == "circle" and rng.random() < 0.8:
                a["radius"] = rng.choice([rnd(rng, 0, 0.7), 0.25, 0.5, 0.0, 1.5])
                if rng.random() < 0.6:
                    a["x_center"], a["y_center"] = rnd(rng, -0.2, 1.2), rnd(rng, -0.2, 1.2)
                elif rng.random() < 0.5:
                    a["x_center"] = rnd(rng, 0, 1)
            L.append(a)
        out.append(dict(s=seed(rng), nx=rng.choice([1, 2, 3, 8, 9, 9, 17, 16, 25, 40, rng.randrange(41, 161)]), ny=rng.choice([1, 2, 3, 8, 9, 9, 17, 30, rng.randrange(31, 161)]), nf=rng.choice([1, 1, 2, 5]), layers=L, two=rng.random() < 0.4, trained=rng.random() < 0.3, pos=rng.random() < 0.3))
    return out


def run(case):
    import nidn, torch

    d = case
    g = gen(d)
    c = cfg(Nx=d["nx"], Ny=d["ny"], N_freq=d["nf"], physical_wavelength_range=[1e-6, 8e-6])
    if d.get("trained"):  # a configuration used for a classification run at other frequencies before
        c.physical_wavelength_range = [2e-6, 5e-6]
        freqs(c)
        c.material_collection = nidn.MaterialCollection(c.target_frequencies)
        c.N_materials = c.material_collection.N_materials
        c.physical_wavelength_range = [1e-6, 8e-6]
    freqs(c)
    B = [nidn.LayerBuilder(c)]
    mc = nidn.MaterialCollection(c.target_frequencies)
    if d["two"]:
        B.append(nidn.LayerBuilder(c))
    x = np.linspace(0, 1, d["nx"]) if d["nx"] > 1 else np.zeros(1)
    y = np.linspace(0, 1, d["ny"]) if d["ny"] > 1 else np.zeros(1)
    X, Y = np.meshgrid(x, y, indexing="ij")
    built = []
    o = Obs()
    both = 0
    for a in d["layers"]:
        b = B[int(g.integers(len(B)))]
        m1, m2 = [mc.material_names[i] for i in g.permutation(mc.N_materials)[:2]]
        kw = {k: v for k, v in a.items() if k != "k"}
        if a["k"] == "uniform":
            e = b.build_uniform_layer(m1)
            inside, edge = np.zeros(X.shape, bool), np.zeros(X.shape, bool)
        elif a["k"] == "square":
            e = b.build_squared_layer(m1, m2, *kw.values()) if d["pos"] else b.build_squared_layer(m1, m2, **kw)
            s = kw.get("a", 0.33)
            v = np.minimum(np.minimum(X - s, 1 - s - X), np.minimum(Y - s, 1 - s - Y))
            inside, edge = v > 0, np.abs(v) < 1e-9
        else:
            e = b.build_circle_layer(m1, m2, **kw)
            v = kw.get("radius", 0.33) ** 2 - (X - kw.get("x_center", 0.5)) ** 2 - (Y - kw.get("y_center", 0.5)) ** 2
            inside, edge = v > 0, np.abs(v) < 1e-9
        require(tuple(e.shape) == (d["nx"], d["ny"], d["nf"]), f"{a['k']} layer of shape {tuple(e.shape)}")
        v = e.detach().numpy()
        E1, E2 = mc[m1].numpy(), mc[m2].numpy()
        is1 = np.all(np.abs(v - E1) < 1e-9 * (1 + np.abs(E1)), -1)
        is2 = np.all(np.abs(v - E2) < 1e-9 * (1 + np.abs(E2)), -1)
        bad = ~np.where(edge, is1 | is2, np.where(inside, is2, is1))
        if bad.any():
            k = np.unravel_index(np.argmax(bad), bad.shape)
            raise Violation(f"{a}: point {k} at ({X[k]:.4f}, {Y[k]:.4f}) is {'inside' if inside[k] else 'outside'} but has {v[k]} (outside {m1}: {E1}, inside {m2}: {E2})")
        if a["k"] != "uniform" and not np.allclose(E1, E2) and d["nx"] in (1, 2, 3, 9, 17) and d["ny"] in (1, 2, 3, 9, 17) and (8 * kw.get("a", kw.get("radius", 0.33))).is_integer() and "x_center" not in kw:
            # coordinates without rounding: the centred hole is its own mirror image, also where points lie on its rim
            for ax in (0, 1):
                if d[["nx", "ny"][ax]] > 1:
                    require(np.array_equal(is2, np.flip(is2, ax)), f"{a}: the hole is not symmetric about the centre of the cell (axis {ax}; {d['nx']} x {d['ny']} points)")
                    o.add("mirror images", int(edge.any()))
        both += bool(inside.any() and (~inside).any())
        o.add("points compared", X.size)
        built.append((e, e.clone(), a))
    for e, snap, a in built:
        require(torch.equal(e, snap), f"layer {a} was changed by building others")
    # a layer belongs to the caller: writing one point changes that point and nothing else
    for j, (e, snap, a) in enumerate(built):
        k = tuple(int(g.integers(n)) for n in e.shape)
        e[k] = 123.0 + 4.0j
        want = snap.clone()
        want[k] = 123.0 + 4.0j
        require(torch.equal(e, want), f"layer {a}: writing the point {k} changed other points as well")
        for e2, snap2, a2 in built[j + 1 :]:
            require(torch.equal(e2, snap2), f"writing into layer {a} changed layer {a2}")
        o.add("layers written to")
    for n in mc.material_names:
        for b in B:
            require(torch.equal(mc[n], b.material_collection[n]) if hasattr(b, "material_collection") else True, f"building layers changed the permittivity of {n}")
    o.add("layers built", len(built))
    o.add("layers with both materials", both)
    o.nontrivial = both > 0
    o.sample = {"layers": d["layers"][:2]}
    return o
