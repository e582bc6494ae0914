"""C22: plots show the actual data of the run."""
import os, re, shutil, tempfile
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *
from mon import traincase as TC

PROPERTY = "C22"
RULE = (
    "Runs of all model and design types, with 1-14 frequencies, 1-7 layers and 1x1 to 4x3 grids, random spectra (also with R+T>1), targets, logs (up to 3000 entries) and options. The artists of every produced figure are read back (lines, 3-D scatter points with their values, texts, tick labels) "
    "and compared with data computed independently from the model's permittivities; files are produced in a scratch folder and decoded. Non-trivial: every figure; distinct by case."
)
ASSUMPTIONS = ["a plotted quantity is found by its values and coordinates, not by colours or order", "the figure is the one(s) matplotlib created during the call"]
BUDGET = {"quick": 40, "thorough": 400}
REQUIRED = {"figures examined": 200, "points examined": 1000, "files examined": 40}
KINDS = ["spectra", "spectra_given", "spectrum", "losses", "model", "per_freq", "material", "epsgrid", "per_point"]


def cases(rng, tier):
    out = []
    for i in range(270 if tier == "quick" else 4000):
        m = rng.choice(["siren", "nerf", "voxel", "class"])
        k = KINDS[i % len(KINDS)]
        one = k in ("spectra",)
        big = not one
        out.append(dict(s=seed(rng), kind=k, mk=m, model=m if m != "class" else "siren", type="classification" if m == "class" else "regression", nx=rng.choice([1, 2, 3, 4]) if big else 1, ny=rng.choice([1, 2, 3]) if big else 1,
                        nl=rng.choice([1, 2, 3, 4, 4, 7]), nf=rng.choice([1, 2, 3, 4, 5, 6]) if one or k == "per_freq" else rng.choice([1, 2, 3, 4, 6, 9, 14]), dist=rng.choice(["linear", "log"]), wl=[rnd(rng, 0.4, 1.2), rnd(rng, 1.3, 5)], save=rng.random() < 0.25, name=rng.choice([None, "My plot", "b.C"]),
                        opt=rng.randrange(1000)))
    for j in range(6 if tier == "quick" else 60):
        m = rng.choice(["siren", "voxel", "class"])
        out.insert(j * 9, dict(s=seed(rng), kind="all", mk=m, model=m if m != "class" else "siren", type="classification" if m == "class" else "regression", nx=1, ny=1, nl=rng.choice([1, 2, 3]), nf=[1, 2, 3, 5, 6, 4][j % 6], dist="linear", wl=[0.8, 1.9], save=True, name=None, opt=j))
    return out


def setup(d):
    import nidn, torch

    g = gen(d)
    c = cfg(name="plot", model_type=d["model"], type=d["type"], Nx=d["nx"], Ny=d["ny"], N_layers=d["nl"], N_freq=d["nf"], iterations=1, PER_LAYER_THICKNESS=[0.4], n_neurons=8, hidden_layers=2, freq_distribution=d["dist"],
            physical_wavelength_range=[w * 1e-6 for w in d["wl"]], target_reflectance_spectrum=[round(float(x), 3) for x in g.uniform(0, 0.6, d["nf"])], target_transmittance_spectrum=[round(float(x), 3) for x in g.uniform(0, 0.4, d["nf"])],
            real_min_eps=1.0, real_max_eps=9.0, imag_min_eps=-0.7 if d["opt"] % 5 == 3 else 0.0, imag_max_eps=1.0, seed=int(g.integers(1000)), TRCWA_NG=1)
    r = nidn.run_training(c)
    with torch.no_grad():
        for p in r.model.parameters():
            p.add_(torch.tensor(g.normal(size=tuple(p.shape)) * 0.2))
    n = int(g.integers(2, 30)) if d["opt"] % 3 else int(g.integers(900, 3000))
    r.results.loss_log = [float(x) for x in 10 ** g.uniform(-4, 0, n)]
    r.results.L1_errs = [float(x) for x in 10 ** g.uniform(-4, 0, n)]
    r.results.weighted_average_log = [float(x) for x in 10 ** g.uniform(-4, 0, n)]
    with torch.no_grad():
        eps = nidn.model_to_eps_grid(r.model, r)[0].detach().clone()
    return r, eps, g


def scatters(ax):
    """[(points [n,3], values [n], (vmin, vmax))] of the 3-D scatter artists of an axis"""
    out = []
    for col in ax.collections:
        if getattr(col, "_offsets3d", None) is None or col.get_array() is None:
            continue
        pts = np.stack([np.ma.getdata(a).ravel() for a in col._offsets3d], 1)
        v = np.ma.getdata(col.get_array()).ravel()
        require(len(v) == len(pts), f"{len(pts)} points with {len(v)} values")
        out.append((pts, v, col.get_clim()))
    return out


def layer_labels(ax, nl):
    """named layers are numbered in the order of their heights"""
    lab = [(float(z), t.get_text()) for z, t in zip(ax.get_zticks(), ax.get_zticklabels()) if re.search(r"\d", t.get_text())]
    if lab and len(lab) == nl:
        got = [int(re.search(r"\d+", t).group(0)) for _, t in sorted(lab)]
        require(got == list(range(1, nl + 1)), f"layers from the lowest to the highest are labelled {got}")


def same_field(sc, want, o, what, atol=1e-9):
    """the scatter shows want[ix, iy, iz] at points whose coordinates ascend with the indices"""
    pts, v, clim = sc
    n = want.size
    require(len(v) == n, f"{what}: {len(v)} points for {n} grid points")
    idx = []
    for k in range(3):
        u = np.unique(np.round(pts[:, k], 9))
        require(len(u) == want.shape[k], f"{what}: {len(u)} distinct coordinates along axis {k} for {want.shape[k]}")
        idx.append(np.searchsorted(u, np.round(pts[:, k], 9)))
    got = np.full(want.shape, np.nan)
    got[tuple(idx)] = v
    bad = ~(np.abs(got - want) <= atol + 1e-6 * np.abs(want))
    if bad.any():
        w = tuple(int(x[0]) for x in np.nonzero(bad))
        raise Violation(f"{what}: shows {got[w]} at grid point {w}, the data is {want[w]}")
    require(clim[0] <= v.min() + 1e-9 + 1e-6 * abs(v.min()) and clim[1] >= v.max() - 1e-9 - 1e-6 * abs(v.max()), f"{what}: colour range {clim} does not cover the values {v.min()} ... {v.max()}")
    o.add("points examined", n)


def lines(ax):
    return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray([num(y) for y in np.asarray(l.get_ydata()).ravel()], float)) for l in ax.lines]


def has_line(ls, x, y, what, tol=1e-6):
    """index of a line with these points (in any order); it is taken out of the list"""
    want = sorted(zip(np.round(x, 6), y))
    for i, (a, b) in enumerate(ls):
        if len(a) != len(x):
            continue
        got = sorted(zip(np.round(a, 6), b))
        if np.allclose(np.array(got), np.array(want), rtol=1e-5, atol=tol):
            return ls.pop(i)
    raise Violation(f"{what}: no line shows {[(round(float(a), 4), round(float(b), 5)) for a, b in want][:6]}; lines show {[(np.round(a, 4).tolist()[:6], np.round(b, 5).tolist()[:6]) for a, b in ls][:4]}")


def texts(ax):
    return [t.get_text() for t in ax.texts] + [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]


def by_label(fig, word):
    """the axis that is labelled with the word"""
    c = [ax for ax in fig.axes if word.lower() in ax.get_ylabel().lower()]
    require(len(c) == 1, f"{len(c)} axes are labelled {word!r}: {[ax.get_ylabel() for ax in fig.axes]}")
    return c[0]


def legend(ax):
    l = ax.get_legend()
    return [] if l is None else [t.get_text() for t in l.get_texts()]


def run(d):
    import nidn, torch
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    root = tempfile.mkdtemp(dir=os.environ["MON_SCRATCH"])
    o = Obs()
    try:
        r, eps, g = setup(d)
        e = eps.numpy()
        f = np.array(nums(r.target_frequencies))
        wl = 1 / f
        before = set(plt.get_fignums())
        closed = []
        orig = plt.close
        sp = root if d["save"] else None
        k = d["kind"]
        opt = d["opt"]
        expect = None
        kw = {}
        if opt % 11 < 3 and k in ("spectra_given", "spectrum", "per_point", "epsgrid"):  # frequencies chosen by the user
            f = g.uniform(0.1, 1.5, d["nf"])
            if k in ("per_point", "epsgrid") or opt % 2:
                f = np.sort(f)
            r.target_frequencies = f.copy()
            wl = 1 / f
            if r.type == "classification":
                r.material_collection = nidn.MaterialCollection(r.target_frequencies)
            with torch.no_grad():
                eps = nidn.model_to_eps_grid(r.model, r)[0].detach().clone()
            e = eps.numpy()
        if k in ("spectra", "spectra_given"):
            if k == "spectra":
                with torch.no_grad():
                    R, T = nidn.compute_spectrum(eps, r)
                R, T = nums(R), nums(T)
            else:
                R, T = [float(x) for x in g.uniform(0, 1.3 if opt % 5 == 2 else 1, d["nf"])], [float(x) for x in g.uniform(0, 1, d["nf"])]
                kw = dict(prod_R_spectrum=R if opt % 2 else torch.tensor(R), prod_T_spectrum=T if opt % 3 else torch.tensor(T))
                if opt % 6 == 5:  # only one spectrum given: both are computed
                    kw.pop(["prod_R_spectrum", "prod_T_spectrum"][opt // 6 % 2])
                    with torch.no_grad():
                        R, T = (nums(v) for v in nidn.compute_spectrum(eps, r))
            if d["name"]:
                kw["filename"] = d["name"]
            if opt % 5 == 0:
                kw["ylim"] = [[0.0, 0.7], [0.1, 1.2]]
            expect = (d["name"] or "spectra_comparison") + ".png"
            lim = [list(x) for x in kw.get("ylim", [[0.0, 1.0], [0.0, 1.0]])]
            nidn.plot_spectra(r, save_path=sp, markers=bool(opt % 4), **kw)
        elif k == "spectrum":
            lim = [0.9, 1.3, 0.5][min(opt % 7, 2)]  # also R + T > 1
            R, T = g.uniform(0, lim, d["nf"]), g.uniform(0, lim, d["nf"])
            if d["name"]:
                kw["filename"] = d["name"]
            expect = (d["name"] or "spectrum") + ".png"
            if opt % 3 == 1:
                r.eps = eps.clone()
            had = {q: str(r[q]) for q in r.keys() if q not in ("model", "results", "material_collection")}
            if opt % 5 == 0 and opt % 11 >= 3 and "target_frequencies" in r.keys():
                del r["target_frequencies"]
            nidn.plot_spectrum(r, torch.tensor(R) if opt % 2 else list(R), torch.tensor(T) if opt % 2 else list(T), markers=bool(opt % 4), save_path=sp, show_absorption=bool(opt % 3), **kw)
            now = {q: str(r[q]) for q in r.keys()}
            lost = [q for q in had if q not in now or now[q] != had[q]]
            require(not lost, f"plotting a spectrum changed the entries {lost} of the run")
        elif k == "losses":
            expect = "losses.png"
            nidn.plot_losses(r, save_path=sp)
        elif k == "model":
            expect = "model_grid.png"
            nidn.plot_model_grid(r, save_path=sp)
        elif k == "per_freq":
            expect = "model_grid_per_freq.png"
            fi = None
            if opt % 2:
                fi = [int(x) for x in g.permutation(d["nf"])[: int(g.integers(1, d["nf"] + 1))]]
                kw["freq_idx"] = fi
            nidn.plot_model_grid_per_freq(r, save_path=sp, **kw)
        elif k == "material":
            expect = "material_grid.png"
            if opt % 3 == 0:
                kw["eps"] = torch.tensor(g.uniform(-30, 20, e.shape) + 1j * g.uniform(0, 5, e.shape))
                e = kw["eps"].numpy().copy()
            if opt % 2:
                kw["plot_error"] = True
            names = list(nidn.MaterialCollection(r.target_frequencies).material_names)
            if opt % 5 == 1:
                kw["to_skip"] = [str(x) for x in g.choice(names, 2, replace=False)]
            nidn.plot_material_grid(r, save_path=sp, **kw)
        elif k == "epsgrid":
            expect = "eps_grid.png"
            x = torch.tensor(g.uniform(-9, 9, e.shape) + 1j * g.uniform(0, 3, e.shape)) * [1.0, 1.0, 1e4][opt % 3]
            e = x.numpy().copy()
            nidn.plot_epsilon_grid(x, r, save_path=sp)
        elif k == "per_point":
            expect = "eps_per_points"
            names = list(nidn.MaterialCollection(r.target_frequencies).material_names)
            cmp_ = None
            if opt % 4 == 1:
                cmp_ = str(g.choice(names))
            elif opt % 4 == 2:
                cmp_ = [str(x) for x in g.choice(names, 2, replace=False)]
            if cmp_ is not None:
                kw["compare_to_material"] = cmp_
            if opt % 3 == 0:
                kw["file_id"] = ["_7", "_of the first Run 2", "A.b"][int(g.integers(3))]
            if opt % 5 == 0:
                kw["legend"] = False
            if opt % 7 < 3:
                r.eps = torch.tensor(g.uniform(1, 9, e.shape) + 1j * g.uniform(0, 3, e.shape))
                e = r.eps.numpy().copy()
                if opt % 2:
                    r.eps = r.eps.numpy()
            nidn.plot_eps_per_point(r, save_path=sp, **kw)
        else:
            return run_all(d, r, eps, root, o)
        figs = [plt.figure(i) for i in plt.get_fignums() if i not in before]
        require(len(figs) == 1, f"{len(figs)} figures were produced")
        fig = figs[0]
        o.add("figures examined")
        o.seen("plot", k)
        o.seen("shape", e.shape)

        if k in ("spectra", "spectra_given"):
            require(len(fig.axes) == 2, f"{len(fig.axes)} axes for reflectance and transmittance")
            for word, prod, targ, yl in (("Reflectance", R, r.target_reflectance_spectrum, lim[0]), ("Transmittance", T, r.target_transmittance_spectrum, lim[1])):
                ax = by_label(fig, word)
                require(np.allclose(ax.get_ylim(), yl), f"{word} is shown in the range {ax.get_ylim()}, requested {yl}")
                drawn = lines(ax)
                lg = legend(ax)
                ls = list(drawn)
                a = has_line(ls, wl, np.array(nums(targ)), f"target {word}")
                b = has_line(ls, wl, np.array(nums(prod)), f"produced {word}")
                require(not ls, f"{len(ls)} further lines in {word}")
                if len(lg) == 2:
                    i, j = [[x is y for y in drawn].index(True) for x in (a, b)]
                    if not np.allclose(sorted(a[1]), sorted(b[1]), atol=1e-5):
                        require("target" in lg[i].lower() and "produced" in lg[j].lower(), f"the legend {lg} names the lines the other way round")
                err = float(np.mean(np.abs(np.array(nums(prod)) - np.array(nums(targ)))))
                ts = [float(m.group(0)) for t in texts(ax) for m in re.finditer(r"\d+\.\d+", t) if "L1" in t]
                require(any(abs(t - err) < 1.01e-4 for t in ts), f"{word}: the error shown is {ts}, the mean absolute error {err:.5f}")
        elif k == "spectrum":
            want = [("Reflectance", R), ("Transmittance", T)] + ([("Absorptance", 1 - R - T)] if opt % 3 else [])
            require(len(fig.axes) == len(want), f"{len(fig.axes)} axes for {[w[0] for w in want]}")
            for word, y in want:
                ls = lines(by_label(fig, word))
                has_line(ls, wl, y, word)
                require(not ls, f"further lines in {word}")
        elif k == "losses":
            ax = fig.axes[0]
            drawn = lines(ax)
            lg = [t.lower() for t in legend(ax)]
            for nm, key, other in (("L1", "l1", None), ("loss", "loss", "average"), ("weighted average", "average", None)):
                y = {"L1": r.results.L1_errs, "loss": r.results.loss_log, "weighted average": r.results.weighted_average_log}[nm]
                i = [t for t in range(len(lg)) if key in lg[t] and not (other and other in lg[t])]
                require(len(i) == 1, f"legend {lg} does not name {nm}")
                x, v = drawn[i[0]]
                require(len(v) == len(y) and np.allclose(v, y, rtol=1e-9) and np.allclose(x, np.arange(len(y))), f"the line named {lg[i[0]]!r} does not show the logged {nm} values")
            require(ax.get_yscale() == "log", "losses are not on a logarithmic scale")
            require(len(drawn) == 3, f"{len(drawn)} lines")
        elif k in ("model", "epsgrid"):
            sc = [s for ax in fig.axes for s in scatters(ax)]
            require(len(sc) == 1, f"{len(sc)} scatters")
            want = np.abs(e.mean(3)) if k == "model" else np.sqrt((np.abs(e) ** 2).sum(3))
            same_field(sc[0], want, o, k)
        elif k == "per_freq":
            fi = kw.get("freq_idx") or list(range(min(4, d["nf"])))
            main = [(ax, s) for ax in fig.axes for s in scatters(ax)]
            require(len(main) == 2 * len(fi), f"{len(main)} panels for {len(fi)} frequencies")
            bars = colourbars(fig)
            todo = [(i, p) for i in fi for p in ("real", "imag")]
            for (ax, s) in main:
                hit = None
                for t in todo:
                    w = getattr(e[..., t[0]], t[1])
                    try:
                        same_field(s, w, o, "per_freq")
                        hit = t
                        break
                    except Violation as ex:
                        last = ex
                require(hit is not None, f"a panel shows neither the real nor the imaginary part at one of the frequencies {fi}: {ax.get_title()}")
                todo.remove(hit)
                m = re.search(r"\d+\.\d+|\d+", ax.get_title().replace("tensor(", ""))
                require(m is not None and abs(float(m.group(0)) - wl[hit[0]]) < 0.0051, f"a panel with the permittivity at {wl[hit[0]]:.4f} um is titled {ax.get_title()!r}")
                lab = bars.get(id(ax), "")
                if lab:
                    require(("eal" in lab) == (hit[1] == "real"), f"a panel of the {hit[1]} part is labelled {lab!r}")
        elif k == "material":
            mc = nidn.MaterialCollection(r.target_frequencies, to_skip=kw.get("to_skip"))
            names = list(mc.material_names)
            tab = np.array([np.asarray(nums(mc[n].real)) + 1j * np.asarray(nums(mc[n].imag)) for n in names])
            dist = np.abs(e[..., None, :] - tab).mean(-1)
            best = dist.argmin(-1)
            sc = [s for ax in fig.axes for s in scatters(ax)]
            require(len(sc) == (2 if kw.get("plot_error") else 1), f"{len(sc)} panels")
            # where two materials are equally close either one is right
            so = np.sort(dist, -1)
            clear = so[..., 1] - so[..., 0] > 1e-6 * (1 + so[..., 0])
            lab = ticks(fig, names)
            ids = {v: names.index(t) for v, t in lab.items()}
            vals = [s for s in sc if set(np.round(s[1], 6)) <= set(ids)]
            require(vals, f"no panel shows material numbers that the colour bar explains ({lab})")
            s = vals[0]
            shown = (s[0], np.array([ids[round(float(v), 6)] for v in s[1]], float), (-1, len(names)))
            w = best.astype(float)
            if clear.all():
                same_field(shown, w, o, "closest material (number in the alphabetical order of the collection)")
            if kw.get("plot_error"):
                er = [t for t in sc if t is not s][0]
                same_field(er, so[..., 0], o, "distance to the closest material", 1e-6)
        elif k == "per_point":
            ax, ax2 = by_label(fig, "real"), by_label(fig, "imag")
            mc = nidn.MaterialCollection(r.target_frequencies)
            if cmp_ is not None:
                mats = [cmp_] if isinstance(cmp_, str) else cmp_
            else:
                tab = np.array([np.asarray(nums(mc[n].real)) + 1j * np.asarray(nums(mc[n].imag)) for n in names])
                dist = np.abs(e[..., None, :] - tab).mean(-1)
                so = np.sort(dist, -1)
                mats = [names[i] for i in np.unique(dist.argmin(-1))] if np.all(so[..., 1] - so[..., 0] > 1e-6) else None
            for a, part in ((ax, "real"), (ax2, "imag")):
                ls = lines(a)
                for ix in np.ndindex(*e.shape[:3]):
                    has_line(ls, wl, getattr(e[ix], part), f"{part} part at grid point {ix}", 1e-5)
                    o.add("points examined")
                if mats is not None:
                    for m in mats:
                        has_line(ls, wl, np.array(nums(getattr(mc[m], part))), f"{part} part of {m}", 1e-5)
                    require(not ls, f"{len(ls)} further lines")
                    tx = [t.strip() for t in texts(a)]
                    for m in mats:
                        require(m in tx, f"the line of {m} has no name; texts {tx}")
                    pts = np.concatenate([np.stack([wl, np.array(nums(getattr(mc[m], part)))], 1) for m in mats])
                    own = np.repeat(np.arange(len(mats)), len(wl))
                    for t in a.texts:  # a name stands at its own curve
                        nm = t.get_text().strip()
                        if nm in mats:
                            q = np.array([num(v) for v in t.get_position()])
                            dd = np.abs((pts - q) / (np.ptp(pts, axis=0) + 1e-9)).max(1)
                            require(dd[own == mats.index(nm)].min() <= dd.min() + 1e-6, f"the name {nm} stands at the curve of {mats[own[int(dd.argmin())]]}")
                            o.add("names at curves examined")
                    for m in names:
                        require(m in mats or m not in tx, f"{m} is named but not drawn")
        for a in fig.axes:
            if scatters(a):
                layer_labels(a, d["nl"])
        fs = sorted(os.listdir(root))
        if sp:
            require(len(fs) == 1 and (fs[0] == expect or k == "per_point" and fs[0].startswith(expect) and fs[0].endswith(".png") and kw.get("file_id", "") in fs[0]), f"saved as {fs}, expected {expect}")
            examine(os.path.join(root, fs[0]), o)
        else:
            require(not fs, f"files {fs} were written although no folder was given")
        o.sample = {"plot": k, "shape": list(e.shape)}
    finally:
        plt.close("all")
        shutil.rmtree(root, ignore_errors=True)
    return o


def colourbars(fig):
    """label of the colour bar of each axis"""
    out = {}
    for ax in fig.axes:
        for col in ax.collections:
            cb = getattr(col, "colorbar", None)
            if cb is not None and getattr(col, "_offsets3d", None) is not None:
                out[id(ax)] = cb.ax.get_ylabel() or cb.ax.get_xlabel()
    return out


def ticks(fig, names):
    """value -> label of the colour bar that carries the material names"""
    for ax in fig.axes:
        for col in ax.collections:
            cb = getattr(col, "colorbar", None)
            if cb is None:
                continue
            lab = [t.get_text() for t in cb.ax.get_yticklabels()]
            if set(lab) & set(names):
                require(sorted(lab) == sorted(names), f"colour bar labels {lab}, materials {names}")
                return {round(float(v), 6): t for v, t in zip(cb.ax.get_yticks(), lab)}
    raise Violation("no colour bar with the material names")


def examine(path, o):
    import matplotlib.image as im

    a = im.imread(path)
    require(a.ndim == 3 and min(a.shape[:2]) > 100 and a[..., :3].std() > 1e-3, f"{os.path.basename(path)} is empty")
    o.add("files examined")


def run_all(d, r, eps, root, o):
    import nidn
    import matplotlib.pyplot as plt

    sub = os.path.join(root, "new", "folder") if d["opt"] % 2 else root
    nidn.save_all_plots(r, sub)
    fs = sorted(os.listdir(sub))
    for want in ("spectra_comparison", "losses", "model_grid.", "model_grid_per_freq", "material_grid", "eps_per_points"):
        require(sum(x.startswith(want) for x in fs) == 1, f"no {want} among the saved plots {fs}")
    require(len(fs) == 6, f"saved {fs}")
    for x in fs:
        examine(os.path.join(sub, x), o)
    o.add("figures examined", 6)
    o.seen("plot", "all")
    o.sample = {"files": fs}
    return o
