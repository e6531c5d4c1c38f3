"""Densities on grids and around points follow their definitions."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "Gaussian density and voxelization: 13 boxes x 8 point sets (faces, corners, coincident) x 8 "
             "grids (1 to 13 cells per side) x 6 radii up to beyond the box x weights x every subset of periodic directions, and 4 tilted boxes of unequal sides x 3 point sets x 2 to 4 grids; local density: 13 boxes "
             "x 8 systems x 4 radii x 4 diameters x query arguments, default arguments and lists; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more grids, radii and points",
}
HANG = 200
GRIDS = [(1, 1, 1), (2, 3, 4), (5, 5, 5), (8, 3, 6), (4, 7, 2), (13, 9, 11), (1, 6, 2)]
WIDE = {"wide2": ((24, 4, 0, 0.5, 0, 0), [(16, 2), (25, 4), (7, 6), (12, 3)]),
        "thin2": ((4, 24, 0, -0.3, 0, 0), [(2, 16), (4, 25), (6, 7)]),
        "wide": ((20, 4, 5, 0.7, -0.6, 0.5), [(12, 2, 2), (11, 4, 2), (6, 2, 6)]),
        "tall": ((4, 16, 5, 0.2, 0.3, -0.8), [(4, 9, 2), (2, 12, 4)])}
PTS = ["gen:1", "gen:7", "clu:9:4", "bdy", "dup:6", "lat:2", "lat:2:0.5", "line:5"]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        for p in PTS + (["gen:40:3", "lat:3"] if th else []) + [x[0] for x in ref.BIG.get(b, [])]:
            for per in itertools.product((True, False), repeat=2 if ref.Cell(b).is2d else 3):
                if not all(per) and (any(ref.Cell(b).spec[3:]) or p not in ("gen:7", "bdy", "clu:9:4")):
                    continue
                yield {"c": "grid", "box": b, "p": p, "per": per}
    for b in WIDE:
        for p in ("gen:7", "bdy", "clu:9:4"):
            yield {"c": "grid", "box": b, "p": p, "per": (True,) * (2 if "2" in b else 3)}
    for b in ref.BOXES:
        for p, q in [("gen:12", None), ("gen:25:2", None), ("clu:16:4", None), ("gen:9:3", "gen:5:8"), ("gen:5:3", "gen:14:8"),
                     ("lat:3", None), ("lat:2", "lat:3:0.5"), ("gen:1", None), ("dup:8", None)] + ref.BIG.get(b, []):
            yield {"c": "local", "box": b, "p": p, "q": q}


def grid(case, ctx):
    cell = ref.Cell(WIDE[case["box"]][0] if case["box"] in WIDE else case["box"])
    d = cell.dim
    per = list(case["per"])
    p = ref.points(cell, case["p"])
    tilted = any(cell.spec[3:])
    box = cell.freud(per + [False] * (3 - d)) if not all(per) else cell.freud()
    L = np.array(cell.spec[:3])
    scale = float(L.max())
    tol = 2e-6 * scale
    w = np.random.RandomState(5).rand(len(p)) * 2 - 0.5
    for g in (WIDE[case["box"]][1] if case["box"] in WIDE else GRIDS) + ([(16, 16, 16), (3, 3, 17)] if ctx.thorough else []):
        g = np.array(g[:d])
        ax = [(np.arange(n) + 0.5) * L[a] / n - L[a] / 2 for a, n in enumerate(g)]
        if d == 2:
            ax.append(np.zeros(1))
        C = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
        D = C[..., None, :] - p.astype(float)
        if tilted:
            D = cell.min_image(D.reshape(-1, 3)).reshape(D.shape) if D.size else D
        else:
            for a in range(d):
                if per[a]:
                    D[..., a] -= L[a] * np.round(D[..., a] / L[a])
        R = np.sqrt((D ** 2).sum(-1))
        half = float(cell.planes.min() if tilted else L[:d].min()) / 2
        for fr in (0.15, 0.5, 0.9, 1.0, 1.3, 2.6) + ((0.05, 0.33, 4.0) if ctx.thorough else ()):
            r = float(np.float32(fr * half))
            if tilted and r > 0.499 * cell.planes.min():
                # beyond half the distance of the planes, wrapping is not the shortest image
                continue
            inside = R < r - tol
            maybe = (np.abs(R - r) <= tol) & ~inside
            shape = tuple(int(x) for x in g)
            for weights in (None, w):
                if not len(p) and weights is not None:
                    continue
                s = float(np.float32(0.3 * half))
                o = freud.density.GaussianDensity(shape, r, s)
                o.compute((box, p), weights)
                ctx.step()
                k = np.exp(-R ** 2 / (2 * s * s)) / (2 * np.pi * s * s) ** (d / 2)
                k = k * (1 if weights is None else weights.astype(np.float32).astype(float))
                want = (k * inside).sum(-1)
                slack = (np.abs(k) * maybe).sum(-1) + 1e-4 * np.abs(k * (inside | maybe)).sum(-1) + 1e-12
                if d == 2:
                    want, slack = want[:, :, 0], slack[:, :, 0]
                got = np.array(o.density, float)
                what = "GaussianDensity(%s, %.4f, %.4f) of %s in %s%s" % (
                    shape, r, s, case["p"], case["box"], "" if all(per) else " periodic %s" % per)
                compare(want, got, slack, what, ctx)
            v = freud.density.SphereVoxelization(shape, r)
            v.compute((box, p))
            ctx.step()
            lo, hi = inside.any(-1), (inside | maybe).any(-1)
            if d == 2:
                lo, hi = lo[:, :, 0], hi[:, :, 0]
            got = np.array(v.voxels)
            ctx.require(set(np.unique(got).tolist()) <= {0, 1}, lambda: "voxels hold %s" % np.unique(got))
            compare((lo * 1.0 + hi) / 2, got.astype(float), (hi * 1.0 - lo) / 2 + 1e-6,
                    "SphereVoxelization(%s, %.4f) of %s in %s%s" % (
                        shape, r, case["p"], case["box"], "" if all(per) else " periodic %s" % per), ctx)
            ctx.state(3)
        if len(set(g)) == 1:
            # one number for all directions
            o2 = freud.density.GaussianDensity(int(g[0]), r, s)
            o2.compute((box, p))
            o1 = freud.density.GaussianDensity(tuple(int(x) for x in g), r, s)
            o1.compute((box, p))
            a, b = np.array(o1.density), np.array(o2.density)
            ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=1e-5), "one width for all directions differs")


def compare(want, got, slack, what, ctx):
    ctx.require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= slack)
    if bad.any():
        k = tuple(int(x[0]) for x in np.nonzero(bad))
        ctx.fail("%s: %r at %s, expected %r (%d of %d cells differ)" % (
            what, float(got[k]), list(k), float(want[k]), int(bad.sum()), bad.size))


def local(case, ctx):
    s = zoo.System(case["box"], case["p"], case["q"])
    half = s.half
    scale = float(max(s.cell.L))
    q = s.p if s.q is None else s.q
    for fr, fd in itertools.product((0.2, 0.5, 0.75, 0.95), (0, 0.1, 0.4, 1.0)):
        r, D = float(np.float32(fr * half)), float(np.float32(fd * fr * half))
        if r + D / 2 > 0.99 * half and not ctx.thorough:
            r = float(np.float32(0.9 * half - D / 2))
        if r + D / 2 >= half:
            continue
        for ex, form in itertools.product((True, False), ("args", "list", "default", "wide", "near")):
            R = r + D / 2
            nbr = {"r_max": R, "exclude_ii": ex}
            if form == "default":
                if ex != (s.q is None):
                    continue
                nbr = None
            elif form == "wide":
                nbr["r_max"] = min(0.999 * half, 1.2 * R)
            elif form == "near":
                nbr = {"num_neighbors": 3, "exclude_ii": ex, "r_max": 0.95 * half}
            arg = nbr
            if form in ("list", "near"):
                arg = freud.locality.AABBQuery(s.box, s.p).query(q, nbr).toNeighborList()
            if form == "near":
                i, dist = np.array(arg.query_point_indices, int), np.array(arg.distances, float)
                if ctx.thorough:
                    arg = nbr
            else:
                i, j, v, dist = ref.ball_pairs(s.cell, q, s.p, R * 1.0001 + 1e-4)
                if ex:
                    i, dist = i[i != j], dist[i != j]
            o = freud.density.LocalDensity(r, D)
            o.compute((s.box, s.p), **s.qp(), neighbors=arg)
            ctx.step()
            f = np.clip(1 - (dist - (r - D / 2)) / D, 0, 1) if D else (dist < r) * 1.0
            eps = 3e-6 * scale
            tl = np.minimum(1, eps / D) if D else 1.0
            near = (dist < r + D / 2 + eps) & (dist > r - D / 2 - eps)
            want = np.bincount(i, f, minlength=len(q))
            # a neighbor closer than r - D/2 counts fully even when r < D/2
            slack = np.bincount(i, near * (tl if D else (np.abs(dist - r) < eps) * 1.0), minlength=len(q)) + 1e-4 * (
                1 + want)
            got = np.array(o.num_neighbors, float)
            what = "LocalDensity(%.4f, %.4f) in %s, %s %s" % (r, D, case["box"], form, nbr)
            ctx.require(got.shape == want.shape, lambda: "%s: shape %s" % (what, got.shape))
            bad = ~(np.abs(got - want) <= slack)
            ctx.require(not bad.any(), lambda: "%s: num_neighbors of points %s: %s, expected %s" % (
                what, np.nonzero(bad)[0][:4].tolist(), got[bad][:4].tolist(), want[bad][:4].tolist()))
            vol = np.pi * r * r if s.cell.is2d else 4 / 3 * np.pi * r ** 3
            den = np.array(o.density, float)
            bad = ~(np.abs(den * vol - got) <= 1e-4 * (1e-6 + np.abs(got)))
            ctx.require(not bad.any(), lambda: "%s: density %s for num_neighbors %s, volume %g" % (
                what, den[bad][:3].tolist(), got[bad][:3].tolist(), vol))
        ctx.state()


def check(case, ctx):
    (grid if case["c"] == "grid" else local)(case, ctx)
    ctx.traces += 1
