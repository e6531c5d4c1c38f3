"""Interfaces are exactly the points and query points that bonds connect."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "every neighbor list between 3 query points and 3 points (512) and every one of up to 4 bonds between 2 and 5; 13 boxes x 9 pairs of "
             "sets x query arguments (8 radii with and without r_min, 3 numbers of neighbors, exclusion) against an independent search",
    "thorough": "as quick with every list between 3 and 4 points and more sets",
}
HANG = 200


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for first in range(8):
        yield {"c": "graphs", "nq": 3, "np": 4 if th else 3, "first": first}
    yield {"c": "few"}
    for b in ref.BOXES:
        for p, q in [("gen:7", "gen:5:3"), ("clu:9:4", "gen:6:2"), ("lat:3", "lat:3:0.4"), ("gen:1", "gen:9"), ("gen:9:8", "gen:1:4"), ("bdy", "gen:8:5"),
                     ("gen:30:2", "gen:40:6"), ("gen:12:4", None), ("gen:5:5", "gen:5:5")] + ([("gen:150:2", "gen:90:6"), ("line:15", "dup:9")] if th else []):
            yield {"c": "systems", "box": b, "p": p, "q": q}


def verify(ctx, o, i, j, what):
    ctx.step()
    ctx.state()
    want_p, want_q = sorted(set(j)), sorted(set(i))
    for name, want in (("point", want_p), ("query_point", want_q)):
        ids = np.array(getattr(o, name + "_ids"))
        ctx.require(ids.ndim == 1 and ids.dtype.kind in "ui" and ids.tolist() == want, lambda: "%s: %s_ids %s, expected %s" % (what, name, ids.tolist(), want))
        c = getattr(o, name + "_count")
        ctx.require(c == len(want), lambda: "%s: %s_count %s, expected %d" % (what, name, c, len(want)))


def graphs(case, ctx):
    nq, n = case["nq"], case["np"]
    pairs = [(a, b) for a in range(nq) for b in range(n)]
    pts, q = np.float32(np.eye(4, 3)[:n]), np.float32(-np.eye(4, 3)[:nq])
    box = freud.box.Box.cube(8)
    o = freud.interface.Interface()
    for m in range(case["first"], 2 ** len(pairs), 8):
        e = [x for k, x in enumerate(pairs) if m >> k & 1]
        i, j = [x[0] for x in e], [x[1] for x in e]
        nl = freud.locality.NeighborList.from_arrays(nq, n, i, j, np.ones((len(i), 3), np.float32)) if e else empty(nq, n)
        r = o.compute((box, pts), q, neighbors=nl)
        ctx.require(r is o, "compute does not return the object")
        verify(ctx, o, i, j, "bonds %s" % e)


def empty(nq, n):
    nl = freud.locality.NeighborList.from_arrays(nq, n, [0], [0], [[1.0, 0, 0]])
    nl.filter([False])
    return nl


def few(case, ctx):
    pairs = [(a, b) for a in range(2) for b in range(5)]
    o = freud.interface.Interface()
    pts, q = np.float32(np.random.RandomState(1).rand(5, 3)), np.float32(np.random.RandomState(2).rand(2, 3))
    for k in range(5):
        for e in itertools.combinations(pairs, k):
            i, j = [x[0] for x in e], [x[1] for x in e]
            nl = freud.locality.NeighborList.from_arrays(2, 5, i, j, np.ones((k, 3), np.float32)) if k else empty(2, 5)
            o.compute((freud.box.Box.square(8) if False else freud.box.Box.cube(8), pts), q, neighbors=nl)
            verify(ctx, o, i, j, "bonds %s" % (e,))


def systems(case, ctx):
    s = zoo.System(case["box"], case["p"], case["q"])
    q = s.p if s.q is None else s.q
    D = ref.min_dist(s.cell, q, s.p)
    o = freud.interface.Interface()
    for f in (0.1, 0.25, 0.4, 0.55, 0.7, 0.8, 0.9, 0.97):
        for r_min in (0, 0.3 * f):
            for ex in (None, False, True):
                r = float(np.float32(f * s.half))
                lo = float(np.float32(r_min * s.half))
                d = D.copy()
                if ex or ex is None and s.q is None:
                    k = np.arange(min(d.shape))
                    d[k, k] = np.inf
                hit = (d < r) & (d >= lo)
                near = (np.abs(d - r) < 1e-4) | (np.abs(d - lo) < 1e-4) & (lo > 0)
                if near.any():
                    continue
                nbr = {"r_max": r}
                if lo:
                    nbr["r_min"] = lo
                if ex is not None:
                    nbr["exclude_ii"] = ex
                keep = dict(nbr)
                for form in ("tuple", "aabb"):
                    o.compute(s.system(freud, form), s.q, neighbors=nbr)
                    i, j = np.nonzero(hit)
                    verify(ctx, o, i.tolist(), j.tolist(), "%s/%s in %s, %s" % (case["p"], case["q"], case["box"], nbr))
                ctx.require(nbr == keep, "compute changed its query arguments")
    if any(s.cell.spec[3:]):
        return
    for k in (1, 2, 3):
        d = D.copy()
        if s.q is None:
            np.fill_diagonal(d, np.inf)
        if d.shape[1] <= k:
            continue
        t = np.sort(d, axis=1)
        if np.any(t[:, k] - t[:, k - 1] < 1e-4):
            continue
        o.compute(s.system(freud), s.q, neighbors={"num_neighbors": k})
        i, j = np.nonzero(d <= t[:, k - 1:k])
        verify(ctx, o, i.tolist(), j.tolist(), "%s/%s in %s, %d neighbors" % (case["p"], case["q"], case["box"], k))


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
