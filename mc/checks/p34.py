"""Voronoi cells tile the box; neighbors, weights and coordination numbers belong to their faces."""
import itertools

import numpy as np
from scipy.spatial import ConvexHull

from mc import ref, zoo

VARIANTS = ["full"]
BOUNDS = {
    "quick": "13 boxes x 9 systems (one point to 40, lattices, clusters, points on the faces of the box) in 3 forms; continuous "
             "coordination of each for 5 sets of powers x log x exp; every sequence of 3 of 4 systems on one object",
    "thorough": "as quick with 15 systems, up to 150 points; sequences of 4",
}
HANG = 300
SYS = ["gen:1", "gen:2:3", "gen:3:5", "gen:5", "gen:12", "gen:40:2", "clu:12:4", "lat:2:0.25", "bdy"]


def setup(ctx):
    global freud
    import freud
    zoo.freud = freud


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        for p in SYS + (["gen:150:5", "gen:4:9", "gen:7:2", "clu:60:2", "lat:3", "gen:25:8"] if th else []):
            yield {"c": "cells", "box": b, "p": p}
    for b in ("cube8", "generic", "sq", "neg2"):
        for n in (2, 3) + ((4,) if th else ()):
            yield {"c": "history", "box": b, "n": n}


def near(cell, p, v):
    """Distance of each v to the nearest of all images of p."""
    f = (v[:, None] - p[None]) @ cell.hinv.T
    f -= np.round(f)
    d = f @ cell.h.T
    if cell.is2d:
        d[..., 2] = 0
    out = np.full(len(v), np.inf)
    for m in itertools.product((-1, 0, 1), repeat=cell.dim):
        s = cell.h[:, :cell.dim] @ m
        out = np.minimum(out, np.linalg.norm(d + s, axis=2).min(1))
    return out


def hull(v, dim):
    """(volume, area) of a polytope; joggled if flat faces confuse it."""
    h = ConvexHull(v[:, :dim])
    return h.volume, h.area


def face_area(x, n, dim):
    """Area (length) of the face with vertices x and normal n."""
    if dim == 2:
        return np.linalg.norm(x[:, None] - x[None], axis=2).max()
    u = np.linalg.svd(n[None])[2][1:]
    y = (x - x.mean(0)) @ u.T
    if len(y) < 3:
        return 0.0
    a = np.arctan2(y[:, 1], y[:, 0])
    y = y[np.argsort(a)]
    z = np.roll(y, -1, axis=0)
    return abs((y[:, 0] * z[:, 1] - y[:, 1] * z[:, 0]).sum()) / 2


def verify(o, s, ctx, what):
    c = s.cell
    dim = c.dim
    p = s.p.astype(float)
    V = np.array(o.volumes, float)
    L = float(max(c.L))
    ctx.require(V.shape == (s.n,) and (V > 0).all(), what + ": volumes")
    ctx.require(abs(V.sum() - c.volume) < 1e-4 * c.volume, lambda: "%s: the volumes add up to %g of %g" % (
        what, V.sum(), c.volume))
    P = o.polytopes
    ctx.require(len(P) == s.n, what + ": number of polytopes")
    nl = o.nlist
    I, J = np.array(nl.query_point_indices), np.array(nl.point_indices)
    v, w, d = np.array(nl.vectors, float), np.array(nl.weights, float), np.array(nl.distances, float)
    ctx.require((np.diff(I.astype(int)) >= 0).all(), what + ": the list is not sorted")
    ctx.require(nl.num_points == nl.num_query_points == s.n, what + ": num_points of the list")
    e = 1e-4 * L
    k = np.bincount(I, minlength=s.n)
    ctx.require(np.array_equal(nl.neighbor_counts, k) and np.array_equal(nl.segments, np.cumsum(k) - k),
                what + ": neighbor_counts or segments of the list")
    if len(I):
        ctx.require(np.abs(np.linalg.norm(v, axis=1) - d).max() < e, what + ": distances")
        x = (v - (p[J] - p[I])) @ c.hinv.T
        x[:, dim:] = 0
        ctx.require(np.abs(x - np.round(x)).max() < 1e-4, what + ": a vector does not lead to an image of its point")
        # both directions, with the same weight
        big = w > 1e-3 * L
        for k in np.nonzero(big)[0]:
            m = (I == J[k]) & (J == I[k]) & (np.abs(v + v[k]).max(1) < e)
            ctx.require(m.sum() == 1 and abs(w[m][0] - w[k]) < 1e-3 * (1 + w[k]), lambda: "%s: bond (%d, %d, %s) of weight %g: back %s" % (
                what, I[k], J[k], v[k], w[k], w[m].tolist()))
    for i in range(s.n):
        x = np.asarray(P[i], float)
        ctx.require(x.ndim == 2 and x.shape[1] == 3 and len(x) > dim, lambda: "%s: polytope %d is %s" % (what, i, x.shape))
        r = np.linalg.norm(x - p[i], axis=1)
        n = near(c, p, x)
        ctx.require(np.abs(r - n).max() < e, lambda: "%s: vertex %s of cell %d is %g away from its point, %g from the nearest" % (
            what, x[np.abs(r - n).argmax()], i, r[np.abs(r - n).argmax()], n[np.abs(r - n).argmax()]))
        vol, area = hull(x, dim)
        ctx.require(abs(vol - V[i]) < 2e-4 * (vol + L), lambda: "%s: volume %g of cell %d, its polytope has %g" % (
            what, V[i], i, vol))
        k = I == i
        ctx.require(abs(w[k].sum() - area) < 1e-3 * (area + L), lambda: "%s: weights of point %d add up to %g, its surface is %g" % (
            what, i, w[k].sum(), area))
        ctx.require(abs((w[k] * d[k]).sum() / (2 * dim) - V[i]) < 1e-3 * (V[i] + L), lambda: "%s: the pyramids of point %d "
                    "add up to %g, its volume is %g" % (what, i, (w[k] * d[k]).sum() / (2 * dim), V[i]))
        for b in np.nonzero(k)[0]:
            if w[b] < 1e-2 * L:
                continue
            u = v[b] / d[b]
            on = np.abs((x - p[i]) @ u - d[b] / 2) < 3e-6 * L
            a = face_area(x[on], u, dim) if on.sum() >= dim else 0
            ctx.require(abs(a - w[b]) < 2e-3 * (1 + a), lambda: "%s: weight %g of bond (%d, %d), its face has %g" % (
                what, w[b], i, J[b], a))
        if c.is2d:
            ang = np.unwrap(np.arctan2(x[:, 1] - p[i, 1], x[:, 0] - p[i, 0]))
            ctx.require((np.diff(ang) > -1e-6).all() and ang[-1] - ang[0] < 2 * np.pi, what + ": the vertices do not go around")
    ctx.state()
    return I, J, v, w, d, V


def coordination(vo, data, s, ctx, what):
    I, J, v, w, d, V = data
    x = w * d / (2 * s.cell.dim) / V[I]
    k = np.bincount(I, minlength=s.n)
    small = np.zeros(s.n, bool)
    np.logical_or.at(small, I, x < 1e-3)
    for powers, lg, ex in itertools.product(([2.0], [1.0], [2, 4, 6], [0.5, 3.5], []), (True, False), (True, False)):
        if not powers and not lg and not ex:
            continue
        want = [k ** (2.0 - m) / np.bincount(I, x ** m, s.n) for m in powers]
        if lg:
            want.append(-np.bincount(I, np.log(np.maximum(x, 1e-30)), s.n) / np.log(k))
        if ex:
            want.append(np.bincount(I, np.exp(x - 1 / k[I]), s.n))
        want = np.array(want).T
        for arg in ({"voronoi": vo}, {"system": s.system(freud)}):
            o = freud.order.ContinuousCoordination(powers, compute_log=lg, compute_exp=ex)
            o.compute(**arg)
            ctx.step()
            ctx.require(o.number_of_coordinations == want.shape[1], what + ": number_of_coordinations")
            for name in ("coordination", "particle_order"):
                got = np.array(getattr(o, name), float)
                ok = np.abs(got - want) <= 2e-4 * (1 + np.abs(want)) if got.shape == want.shape else np.zeros(1)
                # the logarithm of a vanishing face is not settled in single precision
                ctx.require((ok | small[:, None]).all() if got.shape == want.shape else False,
                            lambda: "%s: %s with powers %s: %s, expected %s" % (what, name, powers, got[:2].tolist(), want[:2].tolist()))
            ctx.state()


def cells(case, ctx):
    s = zoo.System(case["box"], case["p"])
    if len({tuple(x) for x in np.round(s.cell.frac(s.p) % 1, 4) % 1}) < s.n:
        return
    for form in ("tuple", "aabb", "link", "shifted"):
        vo = freud.locality.Voronoi()
        what = "%s in %s, %s" % (case["p"], case["box"], form)
        t = s
        if form == "shifted":
            t = zoo.System(case["box"], ref.f32(s.p[::-1].astype(float)))
            vo.compute((t.box, t.p))
        else:
            vo.compute(s.system(freud, form))
        ctx.step()
        data = verify(vo, t, ctx, what)
        if form == "tuple":
            coordination(vo, data, t, ctx, what)


def history(case, ctx):
    b = case["box"]
    S = [zoo.System(b, "gen:6"), zoo.System(b, "gen:6:3"), zoo.System(b, "gen:11:4"), zoo.System("slab", "gen:5:2")]
    for h in itertools.product(range(len(S)), repeat=case["n"]):
        o = freud.locality.Voronoi()
        old = []
        for x in h:
            o.compute((S[x].box, S[x].p))
            ctx.step()
            verify(o, S[x], ctx, "history %s in %s" % (h, b))
            for nl, ar, vol, vc in old:
                ctx.require(all(np.array_equal(a, y) for a, y in zip(ar, (nl.query_point_indices, nl.point_indices, nl.vectors,
                                                                          nl.weights))) and np.array_equal(vol, vc),
                            "history %s in %s: a list or volumes read earlier changed" % (h, b))
            nl = o.nlist
            old.append((nl, [np.array(nl.query_point_indices), np.array(nl.point_indices), np.array(nl.vectors),
                             np.array(nl.weights)], o.volumes, np.array(o.volumes)))


def check(case, ctx):
    {"cells": cells, "history": history}[case["c"]](case, ctx)
