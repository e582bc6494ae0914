"""C28: pictures and exports of an FDTD simulation show its actual state."""
import os, shutil, tempfile
import numpy as np
from mon.core import Obs, Violation, require
from mon.util import *

PROPERTY = "C28"
RULE = (
    "Random 2-3 D grids with point, line and plane sources, line, point and block detectors, (differentiable) objects, absorbing and periodic boundaries, run for some steps. Grid.visualize in every plane: the image is read back and compared with the energy of the fields, "
    "every component's line, marker or rectangle with its cells, files with the requested name. save_simulation/save_data: several simulations stored side by side under one name; the stored arrays against the fields observed during the run by an own recorder. plot_detection and dB_map_2D: curves, arrival times and maps against own computation "
    "(envelope by discrete Fourier transform). generate_video with a recording stand-in for ffmpeg that works, fails or is missing: frames, video, working directory. Non-trivial: every picture or file; distinct by case."
)
ASSUMPTIONS = ["rows of the picture are the axis named at its left side, columns the one named below", "the energy in the cell of a point source is left out of the picture", "components are found by the colours given", "a point may be marked at the corner of its cell"]
BUDGET = {"quick": 30, "thorough": 300}
REQUIRED = {"images": 100, "component marks": 300, "stored records": 500, "curves": 100, "maps": 15, "videos": 5, "failing videos": 3}
COL = dict(pbcolor="#010203", pmlcolor="#112233", objcolor="#445566", srccolor="#778899", detcolor="#aabbcc")


def cases(rng, tier):
    out = []
    for i in range(320 if tier == "quick" else 4000):
        D = rng.choice([2, 3, 3])
        axes = rng.sample([0, 1, 2], D)
        shape = [rng.randint(7, 13) if a in axes else 1 for a in range(3)]
        out.append(dict(s=seed(rng), part=["picture", "picture", "data", "curves", "map", "picture", "video"][i % 7], shape=shape, axes=axes, steps=rng.choice([0, 1, 7, 15, 25]), grad=rng.random() < 0.3))
    return out


def A(x):
    import torch

    return x.detach().cpu().numpy().copy() if torch.is_tensor(x) else np.array(x)


def build(d, names=False):
    """a grid and the cells of its components: (kind, lo[3], hi[3]) with inclusive ends"""
    import torch
    from nidn import fdtd

    g = gen(d)
    fdtd.set_backend("torch")
    N = d["shape"]
    G = fdtd.Grid(shape=tuple(N), grid_spacing=1e-7)
    comp = []
    full = [slice(None)] * 3
    big = [a for a in range(3) if N[a] > 1]
    for a in big:
        k = str(g.choice(["none", "low", "high", "both", "periodic"]))
        key = list(full)
        if k == "periodic":
            key[a] = 0
            G[tuple(key)] = fdtd.PeriodicBoundary(name=f"per{a}")
            comp.append(("periodic", a))
        if k in ("low", "both"):
            n = int(g.integers(1, 4))
            key[a] = slice(0, n)
            G[tuple(key)] = fdtd.PML(name=f"low{a}")
            comp.append(("pml", a, 0, n - 1))
        if k in ("high", "both"):
            n = int(g.integers(1, 4))
            key[a] = slice(-n, None)
            G[tuple(key)] = fdtd.PML(name=f"high{a}")
            comp.append(("pml", a, N[a] - n, N[a] - 1))

    def box(flat=()):
        lo = [int(g.integers(0, n - 1)) if n > 1 else 0 for n in N]
        hi = [int(g.integers(l + 1, n)) if n > 1 and a not in flat else l for a, (l, n) in enumerate(zip(lo, N))]
        return lo, hi

    for k in range(int(g.integers(0, 3) if g.random() < 0.8 else g.integers(9, 14))):
        lo, hi = box()
        e = torch.tensor(float(g.uniform(1, 6)), requires_grad=bool(d["grad"]))
        obj = fdtd.AbsorbingObject(permittivity=e, conductivity=torch.tensor(float(g.uniform(0, 100)))) if g.random() < 0.5 else fdtd.Object(permittivity=e)
        G[tuple(slice(a, b + 1) for a, b in zip(lo, hi))] = obj
        comp.append(("object", lo, hi))
    pts = []
    for k in range(int(g.integers(1, 4))):
        kind = str(g.choice(["point", "line", "plane"]))
        if kind == "point":
            p = [int(g.integers(0, n)) for n in N]
            G[tuple(p)] = fdtd.PointSource(period=int(g.integers(6, 20)), amplitude=float(g.uniform(0.5, 2)), phase_shift=0.4)
            comp.append(("psource", p, p))
            pts.append(p)
        elif kind == "line":
            a = int(g.choice(big))
            lo, hi = box([b for b in range(3) if b != a])
            G[tuple(slice(lo[b], hi[b] + 1) if b == a else lo[b] for b in range(3))] = fdtd.LineSource(period=int(g.integers(6, 20)), phase_shift=0.4)
            comp.append(("lsource", lo, hi))
        else:
            if len(big) == 2:
                flat = [b for b in range(3) if b not in big][0]
            else:
                flat = int(g.integers(3))
            lo, hi = box([flat])
            pol = "xyz"[[b for b in range(3) if b != flat][int(g.integers(2))]]
            G[tuple(slice(lo[b], hi[b] + 1) if b != flat else lo[b] for b in range(3))] = fdtd.PlaneSource(period=int(g.integers(6, 20)), phase_shift=0.4, polarization=pol)
            comp.append(("plsource", lo, hi))
    dets = []
    for k in range(int(g.integers(1, 4))):
        kind = str(g.choice(["line", "point", "block"]))
        name = f"det {k}" if names else None
        if kind == "block":
            lo, hi = box()
            det = fdtd.BlockDetector(name=name)
            cells = [[[(x, y, z) for z in (lo[2], hi[2])] for y in (lo[1], hi[1])] for x in (lo[0], hi[0])]
            G[[lo[0], hi[0]], [lo[1], hi[1]], [lo[2], hi[2]]] = det
        elif kind == "line":
            a = int(g.choice(big))
            lo, hi = box([b for b in range(3) if b != a])
            det = fdtd.LineDetector(name=name)
            cells = [tuple(j if b == a else lo[b] for b in range(3)) for j in range(lo[a], hi[a] + 1)]
            G[tuple(slice(lo[b], hi[b] + 1) if b == a else lo[b] for b in range(3))] = det
        else:
            lo = hi = [int(g.integers(0, n)) for n in N]
            det = fdtd.LineDetector(name=name)
            cells = [tuple(lo)]
            G[tuple(lo)] = det
        comp.append(("block" if kind == "block" else "detector", lo, hi))
        dets.append((det, name, cells))
    return G, comp, dets, pts, g


def run(d):
    import matplotlib.pyplot as plt
    from nidn import fdtd

    old = type(fdtd.backend), fdtd.backend.float
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(dir=os.environ.get("MON_SCRATCH"))
    plt.close("all")
    inter = plt.isinteractive()
    try:
        os.chdir(tmp)
        return {"picture": picture, "data": data, "curves": curves, "map": dbmap, "video": video}[d["part"]](d, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        plt.close("all")
        (plt.ion if inter else plt.ioff)()
        fdtd.backend.__class__, fdtd.backend.float = old


def same(c, name):
    import matplotlib.colors as mc

    try:
        return np.allclose(mc.to_rgb(c), mc.to_rgb(COL[name]), atol=1e-6)
    except (ValueError, TypeError):
        return False


def picture(d, tmp):
    import matplotlib.pyplot as plt

    G, comp, dets, pts, g = build(d)
    o = Obs()
    for _ in range(d["steps"]):
        G.step()
    N = d["shape"]
    planes = [a for a in range(3) if all(N[b] > 1 for b in range(3) if b != a)]
    for a in planes:
        E, H = A(G.E), A(G.H)
        rec = [len(x.detector_values()["E"]) for x, *_ in dets]
        # rows and columns of the picture
        r, c = [(1, 2), (2, 0), (0, 1)][a]
        at = int(g.integers(0, N[a])) if not pts or g.random() < 0.4 else pts[0][a]
        kw = dict(COL)
        kw["xyz"[a]] = at
        if g.random() < 0.3:
            kw["norm"] = str(g.choice(["log", "lin", "linear"]))
        idx = int(g.integers(0, 20000))
        save = g.random() < 0.3
        if save:
            os.makedirs("frames", exist_ok=True)
            kw.update(save=True, index=idx, folder=os.path.join(tmp, "frames"))
        plt.close("all")
        G.visualize(**kw)
        require(len(plt.get_fignums()) == 1, f"{len(plt.get_fignums())} figures")
        ax = plt.gcf().axes[0]
        require(len(ax.images) == 1, f"{len(ax.images)} images")
        im = np.array(ax.images[0].get_array(), float)
        want = np.sum(E**2 + H**2, -1)
        want = np.take(want, at, axis=a)
        rest = [b for b in range(3) if b != a]
        want = want if rest == [r, c] else want.T
        require(im.shape == want.shape, f"plane {'xyz'[a]}={at}: the image has {im.shape} cells, the plane {want.shape}")
        for p in pts:
            if p[a] == at:
                require(im[p[r], p[c]] == 0 or abs(im[p[r], p[c]] - want[p[r], p[c]]) < 1e-9, "another value in the cell of a point source")
            want[p[r], p[c]] = im[p[r], p[c]]
        bad = np.abs(im - want) > 1e-9 * (1 + np.abs(want))
        require(not bad.any(), f"plane {'xyz'[a]}={at}: image cell {np.argwhere(bad)[:1].tolist()} is {im[bad][:1]}, the energy there {want[bad][:1]}")
        nv = ax.images[0].norm
        require(nv.vmin <= nv.vmax and nv.vmax >= im.max() * (1 - 1e-6) and (nv.vmin <= im.min() or kw.get("norm") == "log"), f"colours for {nv.vmin} to {nv.vmax}, energies up to {im.max()}")
        require((kw.get("norm") == "log") == ("Log" in type(nv).__name__), f"colours by {type(nv).__name__} for norm={kw.get('norm')}")
        ext = ax.images[0].get_extent()
        require(np.allclose(sorted(ext[:2]), [-0.5, N[c] - 0.5]) and np.allclose(sorted(ext[2:]), [-0.5, N[r] - 0.5]), f"image drawn over {ext}")
        require(ax.get_ylabel() == "xyz"[r] and ax.get_xlabel() == "xyz"[c], f"axes named {ax.get_ylabel()} (left) and {ax.get_xlabel()} (below) for rows along {'xyz'[r]}")
        xl, yl = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        require(xl[0] <= -0.5 and xl[1] >= N[c] - 0.5 and yl[0] <= -0.5 and yl[1] >= N[r] - 0.5, f"only {xl} x {yl} of the plane is visible")
        o.add("images")
        lines = [(l, np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in ax.lines if np.size(l.get_xdata())]
        rects = [(p, np.array([p.get_x(), p.get_x() + p.get_width(), p.get_y(), p.get_y() + p.get_height()], float)) for p in ax.patches]

        def take(lst, f):
            for i, x in enumerate(lst):
                if f(x):
                    lst.pop(i)
                    o.add("component marks")
                    return True
            return False

        def ends(v):
            v = v[~np.isnan(v)]
            return [v.min(), v.max()] if len(v) else [np.nan, np.nan]

        for k in comp:
            if k[0] == "pml" and k[1] != a:
                q = [-0.5, N[c] - 0.5, -0.5, N[r] - 0.5]
                i = 0 if k[1] == c else 2
                q[i : i + 2] = [k[2] - 0.5, k[3] + 0.5]
                ok = take(rects, lambda x: same(x[0].get_facecolor(), "pmlcolor") and np.allclose(x[1], q))
                require(ok, f"absorbing boundary over {'xyz'[k[1]]} = {k[2]}..{k[3]} is not drawn there: {[list(x[1]) for x in rects]}")
            elif k[0] == "periodic" and k[1] != a:
                n = N[k[1]]

                def per(x):
                    u, v = (x[1], x[2]) if k[1] == c else (x[2], x[1])
                    m = N[r] if k[1] == c else N[c]
                    return same(x[0].get_color(), "pbcolor") and np.allclose(np.unique(u[~np.isnan(u)]), [-0.5, n - 0.5]) and np.allclose(ends(v), [-0.5, m - 0.5])

                require(take(lines, per), f"periodic boundary along {'xyz'[k[1]]} is not drawn at both ends")
            elif k[0] == "object":
                q = [k[1][c] - 0.5, k[2][c] + 0.5, k[1][r] - 0.5, k[2][r] + 0.5]
                require(take(rects, lambda x: same(x[0].get_facecolor(), "objcolor") and np.allclose(x[1], q)), f"object over cells {k[1]}..{k[2]} is not drawn there in the plane of {'xyz'[a]}: {[list(x[1]) for x in rects]}")
            elif k[0] == "psource":
                p = k[1]
                ok = take(lines, lambda x: same(x[0].get_color(), "srccolor") and x[1].size == 1 and abs(x[1][0] - p[c]) <= 0.5 and abs(x[2][0] - p[r]) <= 0.5)
                require(ok, f"point source at {p} is not marked in the plane of {'xyz'[a]}: {[(x[1].tolist(), x[2].tolist()) for x in lines]}")
            elif k[0] in ("lsource", "detector"):
                col = "srccolor" if k[0] == "lsource" else "detcolor"
                ok = take(lines, lambda x: same(x[0].get_color(), col) and np.allclose(ends(x[1]), [k[1][c], k[2][c]]) and np.allclose(ends(x[2]), [k[1][r], k[2][r]]))
                require(ok, f"{k[0]} from {k[1]} to {k[2]} is not drawn there in the plane of {'xyz'[a]}: {[(x[1].tolist(), x[2].tolist()) for x in lines]}")
            elif k[0] == "block":
                pts4 = {(u, v) for u in (k[1][c], k[2][c]) for v in (k[1][r], k[2][r])}
                ok = take(lines, lambda x: same(x[0].get_color(), "detcolor") and set(zip(x[1].tolist(), x[2].tolist())) == {(float(u), float(v)) for u, v in pts4})
                require(ok, f"block detector from {k[1]} to {k[2]} is not outlined")
            elif k[0] == "plsource":

                def pl(x):
                    q = x[1]
                    f = same(x[0].get_facecolor(), "srccolor")
                    for j, b in ((0, c), (2, r)):
                        if k[1][b] == k[2][b]:
                            f = f and k[1][b] - 0.5 <= q[j] <= q[j + 1] <= k[1][b] + 0.5
                        else:
                            f = f and np.allclose(q[j : j + 2], [k[1][b] - 0.5, k[2][b] + 0.5])
                    return f

                require(take(rects, pl), f"plane source over {k[1]}..{k[2]} is not drawn there in the plane of {'xyz'[a]}: {[list(x[1]) for x in rects]}")
        require(not rects and not lines, f"{len(rects) + len(lines)} marks of components that do not exist")
        if save:
            f = os.path.join("frames", f"file{idx:04d}.png")
            require(os.path.isfile(f) and os.path.getsize(f) > 500, f"no frame {f}: {os.listdir('frames')}")
            o.add("frames")
        require(np.array_equal(A(G.E), E) and np.array_equal(A(G.H), H), "a picture changed the fields")
        require([len(x.detector_values()["E"]) for x, *_ in dets] == rec and int(G.time_steps_passed) == d["steps"], "a picture changed the simulation")
    for bad in ({}, dict(x=1, y=1), dict(y=1, z=1), dict(x=1, z=1), dict(z=0.5), dict(x=1, norm="cubic")):
        try:
            G.visualize(**bad)
        except Exception:
            o.add("refusals")
            plt.close("all")
            continue
        raise Violation(f"picture with {bad} was drawn")
    o.sample = {"planes": len(planes)}
    return o


def data(d, tmp):
    G, comp, dets, pts, g = build(dict(d, grad=False), names=True)
    o = Obs()
    steps = max(1, d["steps"])
    if g.random() < 0.5:
        try:
            G.save_data()
        except Exception:
            o.add("refusals")
        else:
            raise Violation("data were saved although no folder was prepared")
    nm = [None, "my run", "b2", " padded "][int(g.integers(4))]
    late = g.random() < 0.5
    log = {k: {"E": [], "H": []} for k in range(len(dets))}
    f = None if late else G.save_simulation(nm)

    def at(F, cells):
        if isinstance(cells, list):
            return np.array([at(F, x) for x in cells])
        return F[cells]

    for q in range(steps):
        G.step()
        e = A(G.E)
        for k, (det, name, cells) in enumerate(dets):
            log[k]["E"].append(at(e, cells))
            log[k]["H"].append(at(A(G.H), cells))
    if late:
        f = G.save_simulation(nm)
    require(os.path.isdir(f) and os.path.realpath(f).startswith(os.path.realpath(tmp)), f"folder {f} of the simulation")
    if nm:
        require(nm in os.path.basename(f), f"folder {f} of simulation {nm!r}")
    before = set(os.listdir(f))
    G.save_data()
    new = sorted(set(os.listdir(f)) - before)
    require(len(new) == 1 and new[0].endswith(".npz"), f"saved {new}")
    if d["s"] % 2:
        # other simulations stored under the same name right afterwards
        from nidn import fdtd

        folders = [f]
        for k in range(1 + d["s"] % 3):
            other = fdtd.Grid(shape=(4, 1, 1))
            other[1, 0, 0] = fdtd.LineDetector(name=dets[0][1] if dets else "d")
            for _ in range(k + 1):
                other.step()
            folders.append(other.save_simulation(nm))
            other.save_data()
            o.add("simulations stored side by side")
        require(len({os.path.realpath(x) for x in folders}) == len(folders), f"simulations stored one after the other share a folder: {folders}")
    z = np.load(os.path.join(f, new[0]))
    require(sorted(z.files) == sorted(f"{n} ({x})" for _, n, _ in dets for x in "EH"), f"stored {sorted(z.files)} for detectors {[n for _, n, _ in dets]}")
    for k, (det, name, cells) in enumerate(dets):
        for x in "EH":
            got, want = np.array(z[f"{name} ({x})"], float), np.array(log[k][x])
            require(got.shape == want.shape, f"{name} ({x}) stored with shape {got.shape}, recorded {want.shape}")
            require(np.allclose(got, want, rtol=1e-12, atol=1e-15), f"{name} ({x}): stored readings differ from the fields at the detector")
            o.add("stored records", want.size)
    o.sample = {"file": new[0]}
    return o


def video(d, tmp):
    """frames become a video through ffmpeg (a stand-in that records how it was called)"""
    import json, matplotlib.pyplot as plt

    G, comp, dets, pts, g = build(dict(d, grad=False), names=True)
    o = Obs()
    old = os.environ["PATH"]
    bin = os.path.join(tmp, "bin")
    os.makedirs(bin)
    how = ["works", "works", "fails", "missing"][int(g.integers(4))]
    if how != "missing":
        with open(os.path.join(bin, "ffmpeg"), "w") as f:
            f.write('#!/bin/sh\npwd > "%s/where"\nfor a in "$@"; do echo "$a" >> "%s/args"; last=$a; done\n' % (tmp, tmp) + ('echo video > "$last"\n' if how == "works" else "exit 3\n"))
        os.chmod(os.path.join(bin, "ffmpeg"), 0o755)
    try:
        os.environ["PATH"] = bin if how == "missing" else bin + ":" + old
        if g.random() < 0.3:
            try:
                G.generate_video()
            except Exception:
                o.add("refusals")
            else:
                raise Violation("a video was made although no folder was prepared")
        f = G.save_simulation([None, "clip"][int(g.integers(2))])
        n = int(g.integers(1, 4))
        ax = [a for a in range(3) if sum(d["shape"][b] > 1 for b in range(3) if b != a) == 2]
        for k in range(n):
            G.step()
            plt.close("all")
            G.visualize(**{"xyz"[ax[0]]: 0}, save=True, folder=f, index=k)
        frames = sorted(os.listdir(f))
        require(len(frames) == n, f"{n} frames saved as {frames}")
        here = os.getcwd()
        flag = bool(g.integers(2))
        try:
            v = G.generate_video(delete_frames=True) if flag else G.generate_video()
        except Exception as e:
            require(how != "works", f"generate_video fails with {type(e).__name__}: {e}")
            require("ffmpeg" in str(e), f"failing ffmpeg is reported as {type(e).__name__}: {e}")
            require(os.getcwd() == here, "a failing video leaves the process in another working directory")
            require(sorted(os.listdir(f)) == frames, "frames lost by a failing video")
            o.add("failing videos")
            return o
        require(how == "works", f"generate_video returns {v!r} although ffmpeg {how}")
        require(os.getcwd() == here, "generate_video changes the working directory")
        where = open(os.path.join(tmp, "where")).read().strip()
        args = open(os.path.join(tmp, "args")).read().splitlines()
        pat = os.path.join(where, args[args.index("-i") + 1])
        got = os.path.realpath(os.path.join(where, args[-1]))
        require(os.path.isabs(v) and os.path.realpath(v) == got and os.path.exists(v), f"video {got}, returned {v}")
        require(os.path.dirname(got) == os.path.realpath(f), f"video {got} outside the folder {f}")
        require([os.path.realpath(pat % k) for k in range(n)] == [os.path.realpath(os.path.join(f, x)) for x in frames], f"frames {pat} instead of {frames}")
        left = sorted(x for x in os.listdir(f) if x != os.path.basename(v))
        require(left == ([] if flag else frames), f"frames {left} left of {frames} with delete_frames={flag}")
        o.add("videos")
        o.sample = {"ffmpeg": args}
        return o
    finally:
        os.environ["PATH"] = old


def envelope(x):
    """magnitude of the analytic signal"""
    n = len(x)
    X = np.fft.fft(x)
    h = np.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1 : n // 2] = 2
    else:
        h[1 : (n + 1) // 2] = 2
    return np.abs(np.fft.ifft(X * h))


def curves(d, tmp):
    import matplotlib.pyplot as plt
    from nidn import fdtd

    g = gen(d)
    o = Obs()
    nt = int(g.integers(5, 60))
    rd = {}
    for k in range(int(g.integers(1, 5))):
        t = np.arange(nt)[:, None, None]
        m = int(g.integers(1, 5))
        dn = [f"det{k}", f"E{k}", f"H side {k}", f"EH{k}", f"{k} (E)"][int(g.integers(5))]
        for x in "EH":
            rd[f"{dn} ({x})"] = g.normal(size=(nt, m, 3)) * np.exp(-(((t - g.uniform(0, nt)) / 6) ** 2)) + 1e-3 * g.normal(size=(nt, m, 3))
    blk = g.random() < 0.3
    if blk:
        for x in "EH":
            rd[f"blk ({x})"] = g.normal(size=(nt, 2, 2, 2, 3))
        o.seen("with block", 1)
        keys = list(rd)
        if len(keys) > 2:
            rd = {k: rd[k] for k in keys[-2:] + keys[:-2]}
    lin = {k: v for k, v in rd.items() if v.ndim == 3}
    sp = [None, None, "Ex", "Ey", "Ez", "Hx", "Hy", "Hz"][int(g.integers(8))]
    ref = {k: v.copy() for k, v in rd.items()}
    fdtd.plot_detection(rd, sp) if sp else fdtd.plot_detection(rd)
    require(all(np.array_equal(ref[k], rd[k]) for k in ref) and list(ref) == list(rd), "the readings were changed")
    fields = "EH" if sp is None else sp[0]
    dims = range(3) if sp is None else ["xyz".index(sp[1])]
    found = {}
    arr = {}
    for n in plt.get_fignums():
        fig = plt.figure(n)
        for ax in fig.axes:
            for l in ax.lines:
                y = l.get_ydata()
                if len(y) == nt and np.asarray(y).dtype.kind == "f" and l.get_label() in lin:
                    found[(l.get_label(), ax.get_title())] = np.array(y, float)
                elif ax.get_title() in ("E", "H"):
                    arr[(ax.get_title(), l.get_label())] = dict(zip([str(v) for v in l.get_ydata()], [int(v) for v in l.get_xdata()]))
    want = {}
    for k, v in lin.items():
        for x in dims:
            if k[-2] in fields:
                want[(k, f"{k[-2]}({'xyz'[x]})")] = envelope(v[:, 0, x])
    require(set(found) == set(want), f"curves {sorted(set(found) ^ set(want))[:3]} are too many or missing")
    for k in want:
        require(np.allclose(found[k], want[k], rtol=1e-8, atol=1e-12), f"curve {k} is not the envelope of its reading")
        o.add("curves")
    wa = {}
    for (k, t), v in want.items():
        wa.setdefault((t[0], t[2]), {})[k] = int(np.argmax(v))
    require(arr == wa, f"arrival times {arr} instead of {wa}")
    o.add("arrival times", sum(len(v) for v in wa.values()))
    try:
        fdtd.plot_detection()
    except Exception:
        o.add("refusals")
    else:
        raise Violation("no readings were plotted")
    o.sample = {"specific": sp, "curves": len(want)}
    return o


def dbmap(d, tmp):
    import matplotlib.pyplot as plt, io, contextlib
    from nidn import fdtd

    g = gen(d)
    o = Obs()
    sh = (int(g.integers(2, 30)), int(g.integers(1, 6)), int(g.integers(1, 6)), int(g.integers(1, 4)), 3)
    r = g.normal(size=sh) * 10 ** g.uniform(-3, 1, (1,) + sh[1:]) + g.normal()
    ax = int(g.integers(3))
    ref = r.copy()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        if ax == 2 and g.random() < 0.5:
            fdtd.dB_map_2D(r)
        else:
            fdtd.dB_map_2D(r, choose_axis=ax)
    require(np.array_equal(r, ref), "the readings were changed")
    p = np.ptp(r[:, :, :, 0, ax], axis=0)
    want = 10 * np.log10(p / p.min())
    ims = [i for n in plt.get_fignums() for x in plt.figure(n).axes for i in x.images]
    require(len(ims) == 1, f"{len(ims)} maps")
    got = np.array(ims[0].get_array(), float)
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9), "the map is not the range of the readings in dB above the smallest")
    i, j = np.unravel_index(np.argmax(p), p.shape)
    require(f"[{i}, {j}]" in buf.getvalue(), f"the peak at [{i}, {j}] is reported as {buf.getvalue().strip()!r}")
    for bad in (None, r[0], r[..., 0]):
        try:
            fdtd.dB_map_2D(bad)
        except Exception:
            o.add("refusals")
        else:
            raise Violation("readings of another detector were accepted")
    o.add("maps")
    o.sample = {"shape": list(sh)}
    return o
