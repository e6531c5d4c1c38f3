"""Plots show exactly the current results, at their own coordinates."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "boxes and systems in 13 cells x 4 images x titles, colours, given or new axes; 12 kinds of plottable results x 2 systems: "
             "every history of up to 3 of {compute one system, compute another, accumulate, plot, plot on given axes, make a png}, "
             "then every drawn value against the result read, and the results against those of the history without plots; "
             "drawing functions of freud.plot called directly: 4 to 5 inputs x labels x axes, sizes of 4 clusters, cells in 5 boxes x colourings, "
             "patterns and images of patterns x colour ranges",
    "thorough": "as quick with histories of up to 4",
}
HANG = 300


def setup(ctx):
    global freud, plt, F
    import freud
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    F = figures()


def cases(tier):
    for b in ref.BOXES:
        yield {"c": "box", "box": b}
        if ref.Cell(b).dim == 2:
            yield {"c": "cells", "box": b}
    for h in ("line", "bar", "many", "values", "pattern"):
        yield {"c": "helper", "h": h}
    for name in NAMES:
        n = 4 if tier == "thorough" else 3
        for k in range(n + 1):
            if k < 2:
                yield {"c": "result", "e": name, "head": [], "more": k}
                continue
            for head in itertools.product(OPS, repeat=k - 1):
                yield {"c": "result", "e": name, "head": list(head), "more": 1}


OPS = ["A", "B", "+", "plot", "on", "png"]
NAMES = ["rdf", "correlation", "gaussian", "gaussian wide", "voxels", "clusters", "clusters many", "pmftxy", "pmftxy tall", "hexatic",
         "translational", "debye", "diffraction", "msd window", "msd direct"]


class Fig:
    """How to compute, what is read, and what must be drawn."""

    def __init__(self, make, run, reads, drawn, acc=False):
        self.make, self.run, self.reads, self.drawn, self.acc = make, run, reads, drawn, acc


def line(x, y):
    def f(o, ax, say):
        a, b = np.asarray(x(o), float), np.asarray(y(o), float)
        L = ax.lines[-1]
        g = np.asarray(L.get_xdata(), float), np.asarray(L.get_ydata(), float)
        if g[0].shape != a.shape or not np.array_equal(g[0], a) or not np.array_equal(g[1], b, equal_nan=True):
            say("the line goes through %s, the values are %s" % (list(zip(*g))[:4], list(zip(a, b))[:4]))
    return f


def at(im, x, y, nx, ny):
    """What the image of nx by ny pixels shows at a place."""
    a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
    l, r, b, t = im.get_extent()
    c = np.clip(((x - l) / (r - l) * a.shape[1]).astype(int), 0, a.shape[1] - 1)
    k = (t - y) / (t - b) if im.origin == "upper" else (y - b) / (t - b)
    return a[np.clip((k * a.shape[0]).astype(int), 0, a.shape[0] - 1), c]


def image(values, xs, ys, name):
    def f(o, ax, say):
        v = np.asarray(values(o), float)
        x, y = [np.asarray(g(o), float) for g in (xs, ys)]
        if not ax.images:
            say("no image")
        g = at(ax.images[-1], *[z.ravel() for z in np.meshgrid(x, y, indexing="ij")], len(x), len(y)).reshape(v.shape)
        if not np.allclose(g, v, rtol=1e-6, atol=0, equal_nan=True):
            k = np.argwhere(~np.isclose(g, v, rtol=1e-6, atol=0, equal_nan=True))
            say("at (%g, %g) shows %r, the value is %r (%d of %d differ)" % (
                x[k[0][0]], y[k[0][1]], g[tuple(k[0])], v[tuple(k[0])], len(k), v.size))
    return f


def bars(o, ax, say):
    idx = np.asarray(o.cluster_idx)
    keys, n = np.unique(idx, return_counts=True)
    want = sorted(n.tolist(), reverse=True)[:10]
    got = [p.get_height() for p in ax.patches][-len(want):]
    text = [t.get_text() for t in ax.get_xticklabels()]
    if got != want:
        say("bars of heights %s, expected %s" % (got, want))
    if len(text) != len(want) or any(n[list(keys).index(int(t))] != h for t, h in zip(text, got)) or len(set(text)) != len(text):
        say("bars %s of %s, the sizes are %s" % (got, text, dict(zip(keys.tolist(), n.tolist()))))
    if "%d largest" % len(want) not in ax.get_xlabel() or "clusters: %d" % len(n) not in ax.get_xlabel():
        say("the label is %r, there are %d clusters" % (ax.get_xlabel(), len(n)))


def hist(values):
    def f(o, ax, say):
        v = np.asarray(values(o), float)
        n, e = np.histogram(v, 10)
        got = [p.get_height() for p in ax.patches][-10:]
        left = [p.get_x() for p in ax.patches][-10:]
        if got != n.tolist() or not np.allclose(left, e[:-1], atol=1e-6):
            say("bars %s from %s, expected %s from %s" % (got, left[:2], n.tolist(), e[:2]))
    return f


def centers(n, L):
    return (np.arange(n) + 0.5) / n * L - L / 2


def clipped(o):
    v = np.array(o.pmft, float)
    v[np.isinf(v)] = np.nan
    return v


def figures():
    D = freud.density
    s2 = [zoo.System("odd2", "gen:30"), zoo.System("odd2", "gen:17:5")]
    s3 = [zoo.System("odd", "gen:20"), zoo.System("odd", "gen:13:5")]
    sc = [zoo.System("cube8", "gen:20"), zoo.System("cube4", "gen:9:5")]
    out = {}

    def near(s):
        return {"r_max": 0.9 * s.half, "exclude_ii": True}

    def by(S, f):
        return lambda o, k, kw: f(o, S[k], kw)
    out["rdf"] = Fig(lambda: D.RDF(12, 1.3), by(s3, lambda o, s, kw: o.compute(s.system(freud), **kw)), ["bin_counts", "rdf", "n_r", "bin_centers"],
                     line(lambda o: o.bin_centers, lambda o: o.rdf), True)
    out["correlation"] = Fig(lambda: D.CorrelationFunction(9, 1.5), by(s3, lambda o, s, kw: o.compute(
        s.system(freud), values=s.values + 0.5j * s.angles, **kw)), ["correlation", "bin_counts"],
        line(lambda o: o.bin_centers, lambda o: np.real(o.correlation)), True)

    def grid(which, n):
        def f(o, ax, say):
            image(lambda o: getattr(o, which), lambda o: centers(n[0], o.box.Lx), lambda o: centers(n[1], o.box.Ly), which)(o, ax, say)
            l, r, b, t = ax.images[-1].get_extent()
            if max(abs(r - o.box.Lx / 2), abs(l + r), abs(t - o.box.Ly / 2), abs(t + b)) > 1e-6:
                say("drawn over %s for a box of %s" % ((l, r, b, t), o.box.L))
        return f
    for name, n in (("gaussian", (6, 6)), ("gaussian wide", (7, 4))):
        out[name] = Fig(lambda n=n: D.GaussianDensity(n, 1.2, 0.4), by(s2, lambda o, s, kw: o.compute(s.system(freud))), ["density"], grid("density", n))
    out["voxels"] = Fig(lambda: D.SphereVoxelization((9, 5), 0.8), by(s2, lambda o, s, kw: o.compute(s.system(freud))), ["voxels"], grid("voxels", (9, 5)))
    for name, r in (("clusters", 0.55), ("clusters many", 0.2)):
        out[name] = Fig(freud.cluster.Cluster, by(s3, lambda o, s, kw, r=r: o.compute(s.system(freud), neighbors={"r_max": r * s.half * 1.4, "exclude_ii": True})),
                        ["cluster_idx", "num_clusters"], bars)
    for name, n in (("pmftxy", (6, 6)), ("pmftxy tall", (4, 9))):
        def draw(o, ax, say, n=n):
            c = [np.asarray(x, float) for x in o.bin_centers]
            image(clipped, lambda o: c[0], lambda o: c[1], "pmft")(o, ax, say)
            if np.abs(np.subtract(ax.images[-1].get_extent(), np.ravel(o.bounds))).max() > 1e-6:
                say("drawn over %s, the bounds are %s" % (ax.images[-1].get_extent(), o.bounds))
        out[name] = Fig(lambda n=n: freud.pmft.PMFTXY(1.5, 1.9, n), by(s2, lambda o, s, kw: o.compute(
            s.system(freud), s.angles, neighbors={"r_max": 0.95 * s.half, "exclude_ii": True}, **kw)), ["pmft", "bin_counts"], draw, True)
    out["hexatic"] = Fig(lambda: freud.order.Hexatic(6), by(s2, lambda o, s, kw: o.compute(s.system(freud), neighbors=near(s))),
                         ["particle_order"], hist(lambda o: np.abs(o.particle_order)))
    out["translational"] = Fig(lambda: freud.order.Hexatic(4, True), by(s2, lambda o, s, kw: o.compute(s.system(freud), neighbors=near(s))),
                               ["particle_order"], hist(lambda o: np.abs(o.particle_order)))
    out["debye"] = Fig(lambda: freud.diffraction.StaticStructureFactorDebye(12, 9.0), by(s3, lambda o, s, kw: o.compute(s.system(freud), **kw)),
                       ["S_k", "min_valid_k"], line(lambda o: o.k_values[o.k_values > o.min_valid_k], lambda o: o.S_k[o.k_values > o.min_valid_k]), True)

    def diffraction(o, ax, say):
        k = np.asarray(o.k_values, float)
        im = ax.images[-1]
        l, r, b, t = im.get_extent()
        if not np.allclose([l, r, b, t], [k[0], k[-1]] * 2, atol=1.01 * (k[1] - k[0])):
            say("drawn over %s, the k values are %g to %g" % ((l, r, b, t), k[0], k[-1]))
        # pixel by pixel from the left and from below
        x = l + (np.arange(len(k)) + 0.5) / len(k) * (r - l)
        y = b + (np.arange(len(k)) + 0.5) / len(k) * (t - b)
        v = np.clip(np.asarray(o.diffraction, float), 4e-6 * o.N_points, 0.7 * o.N_points)
        image(lambda o: v, lambda o: x, lambda o: y, "pattern")(o, ax, say)
        n = im.norm
        if abs(n.vmin - 4e-6 * o.N_points) > 1e-9 or abs(n.vmax - 0.7 * o.N_points) > 1e-9:
            say("colours from %g to %g for %d points" % (n.vmin, n.vmax, o.N_points))
    out["diffraction"] = Fig(lambda: freud.diffraction.DiffractionPattern(17, 12), by(sc, lambda o, s, kw: o.compute(
        s.system(freud, "tuple"), zoom=1.5, peak_width=1.0, **kw)), ["diffraction", "k_values", "k_vectors"], diffraction, True)
    frames = [np.stack([zoo.System("odd", "gen:5:%d" % (k + 10 * a)).p for k in range(6)]) for a in range(2)]
    for mode in ("window", "direct"):
        def draw(o, ax, say, mode=mode):
            line(lambda o: np.arange(len(o.msd)), lambda o: o.msd)(o, ax, say)
            if ax.get_xlabel() != ("Window size" if mode == "window" else "Frame number"):
                say("labelled %r" % ax.get_xlabel())
        out["msd " + mode] = Fig(lambda mode=mode: freud.msd.MSD(mode=mode), lambda o, k, kw: o.compute(frames[k], **kw), ["msd", "particle_msd"], draw, True)
    return out


def left_out():
    """Figures of the classes that only the build with stand-ins has."""
    O = freud.order
    s2 = [zoo.System("odd2", "gen:12"), zoo.System("odd2", "gen:17:5")]
    s3 = [zoo.System("odd", "gen:20"), zoo.System("odd", "gen:13:5")]
    out = {}

    def by(S, f):
        return lambda o, k, kw: f(o, S[k], {"neighbors": {"r_max": 0.9 * S[k].half, "exclude_ii": True}})
    for name, kw in (("steinhardt", dict(l=6)), ("steinhardt w", dict(l=4, wl=True, average=True))):
        out[name] = Fig(lambda kw=kw: O.Steinhardt(**kw), by(s3, lambda o, s, k: o.compute(s.system(freud), **k)), ["particle_order"],
                        hist(lambda o: o.particle_order))

    def several(o, ax, say):
        v = np.asarray(o.particle_order, float)
        want = np.concatenate([np.histogram(c, 10, (v.min(), v.max()))[0] for c in v.T]).tolist()
        got = [p.get_height() for p in ax.patches][-len(want):]
        if got != want:
            say("bars %s, expected %s" % (got, want))
        text = [t.get_text() for t in ax.get_legend().get_texts()]
        if len(text) != 2 or "4" not in text[0] or "6" not in text[1]:
            say("the legend is %s" % text)
    out["steinhardt several"] = Fig(lambda: O.Steinhardt([4, 6]), by(s3, lambda o, s, k: o.compute(s.system(freud), **k)), ["particle_order"], several)
    out["solid liquid"] = Fig(lambda: O.SolidLiquid(4, 0.3, 3), by(s3, lambda o, s, k: o.compute(s.system(freud), **k)), ["cluster_idx"], bars)
    out["environments"] = Fig(freud.environment.EnvironmentCluster, by(s3, lambda o, s, k: o.compute(
        s.system(freud), 0.5 * s.r, cluster_neighbors={"num_neighbors": 3}, env_neighbors={"num_neighbors": 3})), ["cluster_idx", "num_clusters"], bars)
    out["direct"] = Fig(lambda: freud.diffraction.StaticStructureFactorDirect(9, 5.0), lambda o, k, kw: o.compute(s3[k].system(freud), **kw),
                        ["S_k", "min_valid_k"], line(lambda o: o.bin_centers[o.bin_centers > o.min_valid_k], lambda o: o.S_k[o.bin_centers > o.min_valid_k]), True)

    def draw(o, ax, say):
        n = len(o.polytopes)
        b = (s2[0] if n == 12 else s2[1]).cell.freud()
        polygons(ax, o.polytopes, o.volumes, b, None, say)
        for k in ("sides", "area"):
            polygons(o.plot(color_by=k), o.polytopes, o.volumes, b, k, say)
    out["voronoi"] = Fig(freud.locality.Voronoi, lambda o, k, kw: o.compute(s2[k].system(freud)), ["polytopes", "volumes"], draw)
    return out


def check(case, ctx):
    try:
        globals()[case["c"]](case, ctx)
    finally:
        plt.close("all")


def axes():
    """Axes given, or not, and what must then hold of those returned."""
    for given in (False, True):
        ax = plt.figure().subplots() if given else None
        before = [a for k in plt.get_fignums() for a in plt.figure(k).axes]

        def ok(got, say, ax=ax, before=before):
            if ax is not None and got is not ax:
                say("not on the axes given")
            if ax is None and got in before:
                say("on axes already in use")
        yield ({} if ax is None else {"ax": ax}), ok


def helper(case, ctx):
    """The functions of freud.plot called on their own."""
    h = case["h"]
    P = freud.plot

    def labels(ax, kw, say):
        got = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        want = tuple(kw.get(k) or "" for k in ("title", "xlabel", "ylabel"))
        if got != want:
            say("labelled %s for %s" % (got, want))

    def texts():
        for on in itertools.product((False, True), repeat=3):
            yield {k: k.upper() for k, o in zip(("title", "xlabel", "ylabel"), on) if o}
    n = np.nan
    if h == "line":
        X = [([0., 1, 2, 3.5], [2., -1, 0, 7]), ([3., 1, 2], [0., n, 5]), ([1.], [2.]), ([], []), (list(range(40)), [k * k % 7 for k in range(40)])]
        for (x, y), kw, arr in itertools.product(X, texts(), (list, np.array)):
            for a, ok in axes():
                say = lambda msg: ctx.fail("line %s, %s with %s: %s" % (x[:4], y[:4], kw, msg))  # noqa
                got = P.line_plot(arr(x), arr(y), **kw, **a)
                ok(got, say)
                labels(got, kw, say)
                line(lambda o: x, lambda o: y)(None, got, say)
                ctx.step()
            plt.close("all")
    elif h == "bar":
        X = [([0, 1, 2], [4., 2, 5]), (["b", "a", "c", "d"], [3, 1, 1, 2]), ([3, 7], [0, 2.5]), (["x"], [9])]
        for (x, y), kw in itertools.product(X, texts()):
            for a, ok in axes():
                say = lambda msg: ctx.fail("bars %s, %s with %s: %s" % (x, y, kw, msg))  # noqa
                got = P.bar_plot(x, y, **kw, **a)
                ok(got, say)
                labels(got, kw, say)
                at = [p.get_x() + p.get_width() / 2 for p in got.patches]
                if [p.get_height() for p in got.patches] != y or not np.allclose(at, x if isinstance(x[0], int) else range(len(x))):
                    say("heights %s at %s" % ([p.get_height() for p in got.patches], at))
                if [t.get_text() for t in got.get_xticklabels()] != [str(v) for v in x]:
                    say("ticks %s" % [t.get_text() for t in got.get_xticklabels()])
                ctx.step()
            plt.close("all")
    elif h == "many":
        for k in (1, 2, 3, 4):
            for sizes, most in itertools.product(itertools.product((1, 2, 11), repeat=k), (1, 3, 10)):
                keys = [7, 2, 5, 0][:k]
                say = lambda msg: ctx.fail("clusters of %s, %d to plot: %s" % (dict(zip(keys, sizes)), most, msg))  # noqa
                got = P.clusters_plot(keys, list(sizes), most)
                text = [t.get_text() for t in got.get_xticklabels()]
                high = [p.get_height() for p in got.patches]
                if high != sorted(sizes, reverse=True)[:most] or len(set(text)) != len(high) or [sizes[keys.index(int(t))] for t in text] != high:
                    say("bars %s of %s" % (high, text))
                if "%d largest" % len(high) not in got.get_xlabel() or "clusters: %d" % k not in got.get_xlabel():
                    say("labelled %r" % got.get_xlabel())
                ctx.step()
                plt.close("all")
    elif h == "values":
        X = [np.arange(7.) % 3, np.linspace(-1, 1, 40) ** 3, np.array([2.5, 2.5, 3]), np.stack([np.arange(9.), np.arange(9.) % 4], -1)]
        for v, kw, legend in itertools.product(X, texts(), (None, True)):
            for a, ok in axes():
                say = lambda msg: ctx.fail("histogram of %s with %s: %s" % (v[:3], kw, msg))  # noqa
                k = 1 if v.ndim == 1 else v.shape[1]
                names = None if legend is None else ["set %d" % i for i in range(k)]
                got = P.histogram_plot(v, **kw, **a, legend_labels=names)
                ok(got, say)
                labels(got, kw, say)
                high = [p.get_height() for p in got.patches]
                want = np.concatenate([np.histogram(c, 10, (v.min(), v.max()))[0] for c in v.reshape(len(v), k).T]).tolist()
                if high != want:
                    say("bars of %s, expected %s" % (high, want))
                text = None if got.get_legend() is None else [t.get_text() for t in got.get_legend().get_texts()]
                if text != names:
                    say("the legend is %s" % text)
                ctx.step()
            plt.close("all")
    else:
        from matplotlib import colormaps, colors
        for m, cmap, lo, hi in itertools.product((5, 8), ("afmhot", "viridis"), (None, 0.5), (None, 4.0)):
            k = np.linspace(-3, 3, m)
            v = np.abs(np.sin(1 + np.arange(m)[:, None] * 1.3 + np.arange(m) ** 2)) * 9
            l, t = 4e-6 * 20 if lo is None else lo, 0.7 * 20 if hi is None else hi
            kw = {} if cmap == "afmhot" else {"cmap": cmap}
            kw.update({} if lo is None else {"vmin": lo}, **({} if hi is None else {"vmax": hi}))
            o = freud.diffraction.DiffractionPattern(m + 8, 16)
            s = zoo.System("cube8", "gen:20")
            o.compute(s.system(freud, "tuple"), zoom=1.5)
            want = colormaps[cmap](colors.LogNorm(l, t)(np.clip(np.asarray(o.diffraction, float), l, t)))
            img = o.to_image(**kw)
            if img.shape != want.shape or np.abs(img - 255 * want.transpose(1, 0, 2)).max() > 1.01:
                ctx.fail("to_image(%s) is not the pattern" % kw)
            for a, ok in axes():
                def say(msg):
                    ctx.fail("pattern with %s: %s" % (kw, msg))
                for src, got in ((v, P.diffraction_plot(v, k, 20, **kw, **a)), (np.asarray(o.diffraction), o.plot(**kw))):
                    if src is v:
                        ok(got, say)
                    im = got.images[-1]
                    want = colormaps[cmap](colors.LogNorm(l, t)(np.clip(src, l, t)))
                    rgba = im.to_rgba(im.get_array()).transpose(1, 0, 2)
                    rgba = rgba if im.origin == "lower" else rgba[:, ::-1]
                    if np.abs(rgba - want).max() > 0.01:
                        say("other colours than the pattern's")
                    if (im.norm.vmin, im.norm.vmax) != (l, t) or (got.get_xlabel(), got.get_ylabel()) != ("$k_x$", "$k_y$"):
                        say("from %s to %s, %s" % (im.norm.vmin, im.norm.vmax, got.get_xlabel()))
                    ctx.step()
            plt.close("all")
    ctx.state()
    ctx.traces += 1


def polygons(got, polys, areas, box, color_by, say):
    """Every cell is drawn, coloured by what was asked for, in the outline of the box."""
    pc = got.collections[-1]
    paths = [np.asarray(q.vertices, float) for q in pc.get_paths()]
    if len(paths) != len(polys):
        say("%d cells drawn of %d" % (len(paths), len(polys)))
    for q, w in zip(paths, polys):
        w = np.asarray(w, float)[:, :2]
        if len(q) != len(w) + 1 or np.abs(q[:-1] - w).max() > 1e-6 or np.abs(q[-1] - w[0]).max() > 1e-6:
            say("a cell is drawn at %s, it is %s" % (q.tolist(), w.tolist()))
    plt.Figure.draw_without_rendering(got.figure)
    rgba = np.round(pc.get_facecolors(), 5)
    key = [len(w) for w in polys] if color_by == "sides" else [float(a) for a in areas] if color_by == "area" else list(range(len(polys)))
    if len(rgba) != len(polys):
        say("%d colours" % len(rgba))
    lo, hi = pc.get_clim()
    if color_by == "sides":
        for (a, p), (b, q) in itertools.combinations(zip(key, rgba.tolist()), 2):
            if (a == b) != (p == q):
                say("cells of %d and %d sides are coloured %s and %s" % (a, b, p, q))
        # the colour that the colour bar has at the number
        want = pc.cmap(pc.norm(np.array(key, float)))
        if np.abs(np.round(want[:, :3], 5) - rgba[:, :3]).max() > 1e-4:
            say("cells of %s sides are not in the colours of the colour bar" % key)
    elif color_by == "area":
        if np.abs(np.asarray(pc.get_array(), float) - key).max() > 1e-6 * max(key) or lo > min(key) or hi < max(key):
            say("areas shown as %s within %s, they are %s" % (np.asarray(pc.get_array())[:4], (lo, hi), key[:4]))
    elif len(polys) <= 20 and len(np.unique(rgba, axis=0)) != len(polys):
        say("%d colours for %d cells" % (len(np.unique(rgba, axis=0)), len(polys)))
    L = [np.asarray(x.get_data(), float).T for x in got.lines[-1:]]
    c = np.asarray(box.make_absolute(np.array([[0, 0, 0], [0, 1, 0], [1, 1, 0], [1, 0, 0]])), float)[:, :2]
    if len(L) != 1 or L[0].shape != (5, 2) or np.abs(L[0][0] - L[0][4]).max() or {tuple(x) for x in np.round(L[0], 4)} != {tuple(x) for x in np.round(c, 4)}:
        say("the outline goes through %s, the corners are %s" % (L, c))
    d = np.abs(np.diff(L[0], axis=0)).sum(-1)
    if abs(d - np.abs(np.diff(np.concatenate([c, c[:1]]), axis=0)).sum(-1)).max() > 1e-4:
        say("the outline crosses the box: %s" % L[0].tolist())
    labels = [a.get_ylabel() for a in got.figure.axes if a is not got]
    if labels != {None: [], "sides": ["Number of sides"], "area": ["Polytope Area"]}[color_by]:
        say("colour bars %s" % labels)


def cells(case, ctx):
    """Drawings of cells that are not those of any computation."""
    from types import SimpleNamespace
    cell = ref.Cell(case["box"])
    b = cell.freud()
    for sides in ((3, 4, 5, 6, 7), (6, 6), (4,), (5, 3, 9, 4, 6, 7, 8, 5, 10), (3,) * 12):
        polys, areas = [], []
        for k, m in enumerate(sides):
            t = 2 * np.pi * np.arange(m) / m + k
            w = np.zeros((m, 3))
            w[:, 0], w[:, 1] = np.cos(t) * (0.3 + 0.1 * k) + k, np.sin(t) * (0.2 + 0.05 * k) - 0.3 * k
            polys.append(w)
            areas.append(0.5 * m * np.sin(2 * np.pi / m) * (0.3 + 0.1 * k) * (0.2 + 0.05 * k))
        o = SimpleNamespace(polytopes=polys, volumes=np.array(areas))
        for color_by, cmap in itertools.product((None, "sides", "area", "size"), (None, "viridis")):
            for a, ok in axes():
                def say(msg):
                    ctx.fail("cells of %s sides in %s by %s in %s: %s" % (sides, case["box"], color_by, cmap, msg))
                try:
                    got = freud.plot.voronoi_plot(o, b, color_by=color_by, cmap=cmap, **a)
                except RuntimeError:
                    if color_by != "size":
                        say("refused")
                    continue
                if color_by == "size":
                    say("not refused")
                ok(got, say)
                polygons(got, polys, areas, b, color_by, say)
                ctx.step()
            plt.close("all")
    ctx.state()
    ctx.traces += 1


def read(f, o):
    return {k: np.concatenate([np.ravel(x) for x in o.polytopes]) if k == "polytopes" else np.array(getattr(o, k)) for k in f.reads}


def result(case, ctx):
    f = F[case["e"]]
    for tail in itertools.product(OPS, repeat=case["more"]):
        seq = case["head"] + list(tail)
        if "+" in seq and not f.acc:
            continue
        if sum(x in ("plot", "on", "png") for x in seq) > 2 and not ctx.thorough:
            continue
        history(case, ctx, f, seq)
        plt.close("all")
    ctx.traces += 1


def history(case, ctx, f, seq):
    o, twin = f.make(), f.make()
    done = False
    axes = None

    def say(msg):
        ctx.fail("%s after %s: %s" % (case["e"], ", ".join(seq) or "nothing", msg))

    def draw(ax):
        before = plt.get_fignums()
        try:
            got = o.plot(ax=ax) if ax is not None else o.plot()
        except AttributeError:
            if done:
                say("the plot is refused")
            return
        if not done:
            say("it plots before compute")
        if ax is not None and (got is not ax or plt.get_fignums() != before):
            say("the plot is not on the axes given")
        if ax is None and got in [a for k in before for a in plt.figure(k).axes]:
            say("the plot is on axes already in use")
        f.drawn(o, got, say)
        ctx.step()

    for op in seq + ["plot"]:
        if op in ("A", "B", "+"):
            kw = {} if not f.acc else {"reset": op != "+"}
            for x in (o, twin):
                f.run(x, op == "B", kw)
            done = True
        elif op == "plot":
            draw(None)
        elif op == "on":
            if axes is None:
                axes = plt.figure().subplots()
            draw(axes)
        else:
            png = o._repr_png_()
            if done != (png is not None) or (done and png[:8] != b"\x89PNG\r\n\x1a\n"):
                say("the png is %s" % (None if png is None else png[:8]))
        ctx.step()
        if done:
            d = zoo.differ(read(f, twin), read(f, o))
            if d:
                say("results differ from those without plots in %s" % d)
        ctx.state()


def box(case, ctx):
    cell = ref.Cell(case["box"])
    b = cell.freud()
    keep = b.to_dict()
    dim = cell.dim
    p = ref.points(cell, "gen:7")
    E = [(x, y) for x in itertools.product((0, 1), repeat=dim) for y in itertools.product((0, 1), repeat=dim)
         if x < y and sum(abs(s - t) for s, t in zip(x, y)) == 1]

    def segments(ax, say, image, color, style):
        """Every edge of the cell is drawn, and nothing else."""
        got = set()
        pos = {}
        for c in itertools.product((0, 1), repeat=dim):
            fr = np.zeros((1, 3))
            fr[0, :dim] = np.array(c) + np.array(image[:dim])
            if dim == 2:
                fr[0, 2] = 0.5
            pos[c] = cell.absolute(fr)[0, :dim]
        for L in ax.lines:
            d = np.asarray(L.get_data_3d() if dim == 3 else L.get_data(), float).T
            if L.get_color() != color or (style and L.get_linestyle() != style):
                say("an edge is drawn in %s, %s" % (L.get_color(), L.get_linestyle()))
            at = []
            for v in d:
                m = [c for c, x in pos.items() if np.abs(x - v).max() < 1e-4 * float(max(cell.L))]
                if not m:
                    say("an edge goes to %s" % v)
                at.append(m[0])
            got |= {tuple(sorted(e)) for e in zip(at[:-1], at[1:])}
        if got != set(E):
            say("drawn edges %s" % sorted(set(E) ^ got))

    def new():
        return plt.figure().add_subplot(111, projection="3d" if dim == 3 else None)
    for image, title, style, given in itertools.product((None, [0, 0, 0], [1, 0, 0], [-1, 2, 0 if dim == 2 else 1]), (None, "a box"), (None, "--"),
                                                        (False, True)):
        ax = new() if given else None
        kw = {"color": "r", "linestyle": "--"} if style else {}

        def say(msg):
            ctx.fail("box %s, image %s, title %s, %s: %s" % (case["box"], image, title, kw, msg))
        got = b.plot(title, ax, image, **kw) if given else b.plot(title=title, image=image, **kw)
        if given and got is not ax:
            say("not on the axes given")
        segments(got, say, image or [0, 0, 0], "r" if style else "k", style)
        if got.get_title() != (title or ""):
            say("the title is %r" % got.get_title())
        ctx.step()
    for form, title, given in itertools.product(("aabb", "cell", "raw"), (None, "points"), (False, True)):
        s = zoo.System(case["box"], "gen:7")
        nq = s.system(freud, form)
        ax = new() if given else None

        def say(msg):
            ctx.fail("%s of %s: %s" % (form, case["box"], msg))
        got, sc = nq.plot(ax=ax, title=title)
        if given and got is not ax:
            say("not on the axes given")
        if got.get_title() != (title or ""):
            say("the title is %r" % got.get_title())
        segments(got, say, [0, 0, 0], "k", None)
        xy = np.stack([np.ma.getdata(z) for z in sc._offsets3d], -1) if dim == 3 else np.asarray(sc.get_offsets())
        if xy.shape != (7, dim) or np.abs(np.asarray(xy, float) - s.p[:, :dim]).max() > 0:
            say("the points are drawn at %s" % xy[:2])
        if not np.array_equal(nq.points, s.p):
            say("plotting changed the points")
        ctx.step()
    ctx.require(b.to_dict() == keep and np.array_equal(p, ref.points(cell, "gen:7")), "plotting changed the box")
    ctx.state()
    ctx.traces += 1
