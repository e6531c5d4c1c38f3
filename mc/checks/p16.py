"""RDFs and correlation functions follow their definitions."""
import itertools

import numpy as np

from mc import hist, ref, zoo

BOUNDS = {
    "quick": "13 boxes x 9 systems (same or other query points) x 3 radial ranges x 3 bin numbers x both "
             "normalizations x query arguments or lists x up to 3 frames of different systems; real and complex values; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more systems, ranges and frames",
}
HANG = 200

SYS = [("gen:12", None), ("gen:30:2", None), ("clu:16:4", None), ("gen:9:3", "gen:5:8"), ("gen:5:3", "gen:14:8"),
       ("lat:3", None), ("lat:2", "lat:3:0.5"), ("gen:2", None), ("gen:3:4", "gen:1:5")]


def setup(ctx):
    global freud
    import freud
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        for k, (p, q) in enumerate(SYS + ([("gen:60:5", None), ("gen:40:6", "gen:33:7")] if th else []) + ref.BIG.get(b, [])):
            for mode in ("exact", "finite_size"):
                for rmin in (0, 0.35):
                    yield {"c": "rdf", "box": b, "p": p, "q": q, "mode": mode, "rmin": rmin}
            for v in ("real", "complex", "mixed", "int"):
                yield {"c": "corr", "box": b, "p": p, "q": q, "v": v}
    for n in (1500, 5000):
        yield {"c": "many", "n": n}
    for b in ("cube8", "generic", "sq", "neg2"):
        yield {"c": "default", "box": b}


def pairs(s, nbr):
    """Distances and indices of the reference bonds of s under the arguments nbr: i, j, d."""
    q = s.p if s.q is None else s.q
    i, j, v, d = ref.ball_pairs(s.cell, q, s.p, nbr["r_max"] + 1e-4)
    keep = np.ones(len(i), bool)
    if nbr.get("exclude_ii"):
        keep &= i != j
    return i[keep], j[keep], d[keep]


def frames_of(case, th):
    """Up to three frames: the system, and others, of other sizes, in other boxes of that dimension."""
    s = zoo.System(case["box"], case["p"], case["q"])
    ob = "odd2" if s.cell.is2d else "odd"
    t = zoo.System(ob, case["p"], case["q"], seed=3, r=s.r)
    u = zoo.System(case["box"], "gen:8:6", None if case["q"] is None else "gen:6:4", seed=5, r=s.r)
    out = [[s], [s, s]]
    if t.half > s.r:
        out.append([t, s])
    out.append([u, s])
    if th:
        out += [[u, s, s], [s, u, s]]
    return out


def check(case, ctx):
    if case["c"] == "many":
        return many(case, ctx)
    if case["c"] == "default":
        return default(case, ctx)
    for frames in frames_of(case, ctx.thorough):
        s = frames[-1]
        for n, fr in itertools.product((1, 6, 11), (0.5, 1.0)):
            r = float(np.float32(s.r * fr))
            for ex in (True, False):
                for form in ("args", "list"):
                    one(case, ctx, frames, n, r, ex, form)
    ctx.traces += 1


def one(case, ctx, frames, n, r, ex, form):
    s = frames[-1]
    tol = 4e-6 * float(max(s.cell.L)) + 1e-6 * r
    nbr = {"r_max": float(s.r), "exclude_ii": ex}
    what = "%s(%d bins, %.4f) of %s, %d frames, %s" % (
        case["c"], n, r, [f.boxname for f in frames], len(frames), form)
    rmin = float(np.float32(case.get("rmin", 0) * r))
    if case["c"] == "rdf":
        o = freud.density.RDF(n, r, r_min=rmin, normalization_mode=case["mode"])
    else:
        o = freud.density.CorrelationFunction(n, r)
    mn = mx = 0
    tot = np.zeros(2, int)
    num = np.zeros(n, complex)
    for k, f in enumerate(frames):
        i, j, d = pairs(f, nbr)
        a, b, t = hist.bounds1(d, rmin, r, n, tol)
        mn, mx, tot = mn + a, mx + b, tot + t
        y = (f.box, f.p)
        nb = nbr
        if form == "list":
            nb = freud.locality.AABBQuery(*y).query(f.p if f.q is None else f.q, nbr).toNeighborList()
        if case["c"] == "rdf":
            o.compute(y, **f.qp(), neighbors=nb, reset=k == 0)
        else:
            vp, vq = vals(f, case["v"])
            o.compute(y, vp, **f.qp(), **({} if f.q is None else {"query_values": vq}), neighbors=nb,
                      reset=k == 0)
            e = np.linspace(rmin, r, n + 1)
            w = np.searchsorted(e, d, side="right") - 1
            ok = (w >= 0) & (w < n)
            np.add.at(num, w[ok], (np.conj(vp)[j] * vq[i])[ok])
        ctx.step()
    ctx.state()
    counts = np.array(o.bin_counts, np.int64)
    hist.check(counts, (mn, mx, list(tot)), ctx, what)
    if case["c"] == "rdf":
        V = np.linspace(rmin, r, n + 1).astype(float)
        V = np.pi * np.diff(V ** 2) if s.cell.is2d else 4 / 3 * np.pi * np.diff(V ** 3)
        # normalized by the last frame
        rho = s.n / s.cell.volume
        g = counts / (s.m * rho * V * len(frames))
        if case["mode"] == "finite_size":
            if s.m == 1:
                return
            g = g * s.m / (s.m - 1)
        got = np.array(o.rdf, float)
        if len({(f.n, f.m, f.cell.volume) for f in frames}) == 1:
            bad = np.abs(got - g) > 1e-4 * np.abs(g)
            ctx.require(not bad.any(), lambda: "%s, %s: rdf %s, expected %s" % (
                what, case["mode"], got[bad][:3].tolist(), g[bad][:3].tolist()))
            nr = np.cumsum(counts) / (s.m * len(frames))
            gn = np.array(o.n_r, float)
            ctx.require(np.all(np.abs(gn - nr) <= 1e-4 * (nr[-1] + 1e-9)), lambda: "%s: n_r %s, expected %s" % (
                what, gn.tolist(), nr.tolist()))
        else:
            # frames that differ: the shape of both still follows from the counts
            k = counts > 0
            if k.any():
                q = got[k] / (counts[k] / V[k])
                ctx.require(np.all(np.abs(q - q[0]) <= 1e-4 * abs(q[0])) and q[0] > 0, lambda: "%s: rdf is "
                            "not proportional to the counts per volume: %s" % (what, q.tolist()))
                gn = np.array(o.n_r, float)
                q = gn / np.maximum(np.cumsum(counts), 1)
                ctx.require(np.all(np.abs(gn - q[-1] * np.cumsum(counts)) <= 1e-4 * gn[-1]), lambda: "%s: n_r "
                            "is not cumulative: %s" % (what, gn.tolist()))
    else:
        got = np.asarray(o.correlation)
        cplx = case["v"] in ("complex", "mixed")
        ctx.require((got.dtype.kind == "c") == cplx, lambda: "%s: values of %s give a correlation of type %s" % (
            what, case["v"], got.dtype))
        sure = mn == mx
        want = np.where(counts > 0, num / np.maximum(counts, 1), 0)
        bad = sure & (np.abs(got - want) > 1e-9 + 1e-6 * np.abs(want).max())
        ctx.require(not bad.any(), lambda: "%s, %s values: correlation %s, expected %s in bins %s" % (
            what, case["v"], got[bad].tolist(), want[bad].tolist(), np.nonzero(bad)[0].tolist()))


def vals(f, kind):
    vp, vq = f.values, f.qvalues
    if kind == "complex":
        vp = vp * np.exp(1j * f.angles.astype(float))
        vq = vp if f.q is None else vq * (0.5 - 1.5j)
    elif kind == "mixed":
        if f.q is None:
            return vp * (1 + 0j) + 0.25j, vp * (1 + 0j) + 0.25j
        vq = vq * (0.5 - 1.5j)
    elif kind == "int":
        vp = np.arange(f.n) - 2
        vq = vp if f.q is None else np.arange(f.m) * 3 - 4
    return vp, vq


def many(case, ctx):
    n = case["n"]
    s = zoo.System("cube8", "gen:30")
    o = freud.density.RDF(n, s.r)
    o.compute((s.box, s.p))
    i, j, d = pairs(s, {"r_max": float(s.r), "exclude_ii": True})
    hist.check(np.array(o.bin_counts), hist.bounds1(d, 0, float(np.float32(s.r)), n, 4e-6 * 8), ctx, "%d bins" % n)
    o = freud.density.CorrelationFunction(n, s.r)
    o.compute((s.box, s.p), s.values)
    hist.check(np.array(o.bin_counts), hist.bounds1(d, 0, float(np.float32(s.r)), n, 4e-6 * 8), ctx, "%d bins" % n)
    ctx.state()


def default(case, ctx):
    """No neighbor arguments: all pairs of different points within r_max; all pairs with query points."""
    for p, q in SYS:
        s = zoo.System(case["box"], p, q)
        for n, same in ((4, False), (9, True)):
            r = float(np.float32(0.9 * s.r))
            if same and q is not None:
                continue
            i, j, d = pairs(s, {"r_max": r, "exclude_ii": q is None})
            b = hist.bounds1(d, 0, r, n, 4e-6 * float(max(s.cell.L)))
            kw = s.qp()
            o = freud.density.RDF(n, r)
            o.compute((s.box, s.p), **kw)
            hist.check(np.array(o.bin_counts), b, ctx, "RDF(%d) of %s %s" % (n, p, q))
            c = freud.density.CorrelationFunction(n, r)
            c.compute((s.box, s.p), s.values, **kw, **({} if q is None else {"query_values": s.qvalues}))
            hist.check(np.array(c.bin_counts), b, ctx, "CorrelationFunction(%d) of %s %s" % (n, p, q))
            ctx.state(2)
    ctx.traces += 1
