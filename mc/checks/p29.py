"""Inputs that do not fit together are refused; nothing is read past the end of an array."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "41 computations in 2D and 3D, with and without query points: every per-point array with one row less, one more, none, another number of "
             "columns or dimensions; neighbor lists made for one point or query point more or less; malformed query arguments, boxes, points, "
             "symmetry operations, projection vectors, weights; neighbor lists of arrays with one entry out of range, out of order, missing or too many; each refused call followed by a good one, compared with a fresh object",
    "thorough": "as quick on more systems",
}
HANG = 200
ATTRS = ("angles", "qangles", "quats", "qquats", "values", "qvalues", "keys", "labels", "masses")


def setup(ctx):
    global freud, C
    import freud
    C = zoo.catalog()


def cases(tier):
    for name in sorted(C):
        for d in C[name].dims:
            for q in (None, "gen:5:3") if C[name].query else (None,):
                for n in (9, 6, 17) if tier == "thorough" else (9,):
                    yield {"e": name, "d": d, "q": q, "p": "gen:%d" % n}
    for c in ("points", "boxes", "args", "special", "far", "reach", "lists"):
        yield {"e": None, "c": c}


def mangled(x):
    yield "one short", x[:-1].copy()
    yield "one long", np.concatenate([x, x[:1]])
    yield "empty", x[:0].copy()
    yield "half", x[:len(x) // 2].copy()
    yield "twice", np.concatenate([x, x])
    yield "scalar", x.dtype.type(1)
    if x.ndim > 1:
        yield "wide", np.concatenate([x, x[:, :1]], 1)
        yield "narrow", x[:, :-1].copy()
        yield "flat", x.ravel().copy()
        yield "transposed", x.T.copy()
        yield "deep", x[None].copy()
        yield "deeper", x[:, None].copy()
    else:
        yield "columns", np.stack([x] * 2, 1)


class Spy(zoo.System):
    used = None

    def __getattribute__(self, k):
        u = object.__getattribute__(self, "__dict__").get("used")
        if u is not None:
            u.add(k)
        return object.__getattribute__(self, k)


def system(case):
    return zoo.System("cube8" if case["d"] == "3" else "sq", case["p"], case["q"])


REFUSED = (ValueError, TypeError, RuntimeError, IndexError, AssertionError)


def check(case, ctx):
    if case["e"] is None:
        globals()[case["c"]](ctx)
        ctx.traces += 1
        return
    e = C[case["e"]]
    s0 = system(case)
    if not zoo.suits(e, s0):
        return
    good = e.make(s0)
    e.run(good, s0)
    base = e.read(good)

    def attempt(s, what, **kw):
        o = e.make(s0)
        ctx.step()
        ctx.state()
        s.used = set()
        try:
            e.run(o, s, **kw)
        except REFUSED:
            s.used = None
            e.run(o, s0)
            r = zoo.differ(base, e.read(o))
            ctx.require(r is None, lambda: "%s after being refused %s: %s" % (e.name, what, r))
            return False
        used, s.used = s.used, None
        return what.split()[0] in used if not kw else True

    for a in ATTRS + ("p", "q"):
        x = getattr(s0, a)
        if x is None:
            continue
        for k, y in mangled(x):
            if not allowed(e, case, a, k):
                s = system(case)
                setattr(s, a, y)
                s.__class__ = Spy
                if attempt(s, "%s %s" % (a, k)):
                    ctx.fail("%s (%s, query points %s) takes %s %s: shape %s" % (e.name, case["p"], case["q"], a, k, np.shape(y)))
    if e.nbr and e.name != "interface":
        n, m = s0.n, s0.m
        for dn, dm in ((-1, 0), (1, 0), (0, -1), (0, 1), (1, 1), (-1, -1), (1, -1), (-n + 1, 0), (0, -m + 1), (50, 0), (0, 50)):
            N, M = n + dn, m + dm
            for full in (True, False):
                i = np.repeat(np.arange(M), 2) if full else np.zeros(1, int)
                j = np.arange(len(i)) % N
                nl = freud.locality.NeighborList.from_arrays(M, N, i, j, np.ones((len(i), 3), np.float32))
                s = system(case)
                s.neighbors = None
                s.__class__ = Spy
                if attempt(s, "neighbors", nbr=nl):
                    ctx.fail("%s (%d points, %d query points) takes a neighbor list for %d points and %d query points" % (e.name, n, m, N, M))
        for bad in ([1, 2], "ball", 3.0, ("r_max", 1), {"r_max": -1.0}, {"num_neighbors": 0}, {"rmax": 2.0}, {"r_max": 1.0, "foo": 1}, {"mode": "nearest"},
                    {"mode": "ball"}, {"mode": "cube", "r_max": 1.0}, {}, {"exclude_ii": True}, {"r_max": 50.0}, {"r_max": 1.0, "r_min": 2.0}):
            o = e.make(s0)
            ctx.step()
            ctx.state()
            try:
                e._run(o, s0, s0.system(freud), {"neighbors": bad})
            except REFUSED + (AttributeError,):
                e.run(o, s0)
                r = zoo.differ(base, e.read(o))
                ctx.require(r is None, lambda: "%s after being refused neighbors %r: %s" % (e.name, bad, r))
                continue
            ctx.fail("%s takes the neighbors %r" % (e.name, bad))
    ctx.traces += 1


def allowed(e, case, a, k):
    """Changes after which the arrays still fit together."""
    sized = k in ("one short", "one long", "empty", "half", "twice")
    if a in ("p", "q"):
        return sized or e.name in ("angglob", "rotauto", "cubatic", "nematic")
    if e.name in ("angglob", "rotauto", "cubatic", "diffr", "nematic") and a in ("quats", "qquats"):
        return sized                     # not per point
    return False


def refuse(ctx, what, f):
    ctx.step()
    ctx.state()
    try:
        r = f()
    except REFUSED + (AttributeError,):
        return
    ctx.fail("%s is taken: %r" % (what, r))


def finders(d):
    s = zoo.System("cube8" if d == 3 else "sq", "gen:9")
    for k in ("aabb", "link", "cell", "raw"):
        yield k, s, s.system(freud, k)


def points(ctx):
    """Points and query points of the wrong shape."""
    L = freud.locality
    for d in (2, 3):
        for k, s, nq in finders(d):
            for what, y in mangled(s.p):
                if what in ("one short", "one long", "empty", "half", "twice"):
                    continue
                refuse(ctx, "%s with points %s (%s)" % (k, what, np.shape(y)), lambda: type(nq)(s.box, y))
                if what in ("flat", "scalar"):
                    y = y[:4] if what == "flat" else y
                refuse(ctx, "%s queried with points %s (%s)" % (k, what, np.shape(y)), lambda: nq.query(y, {"r_max": 1.0}).toNeighborList())
            refuse(ctx, "%s without points" % k, lambda: type(nq)(s.box))
            # a single query point
            a = ref.nlist_arrays(nq.query(s.p[2], {"r_max": 0.9 * s.half}).toNeighborList())
            b = ref.nlist_arrays(nq.query(s.p[2:3], {"r_max": 0.9 * s.half}).toNeighborList())
            ctx.require(all(np.array_equal(x, y) for x, y in zip(a, b)), "a single query point")
            if d == 2:
                y = s.p.copy()
                y[4, 2] = 1.0
                refuse(ctx, "%s with a point outside of the plane" % k, lambda: type(nq)(s.box, y))
            y = s.p[:0]
            refuse(ctx, "%s with no points" % k, lambda: L.AABBQuery.from_system((s.box, y)))


def args(ctx):
    """Query arguments that make no sense."""
    for d in (2, 3):
        for k, s, nq in finders(d):
            for bad in ({}, {"exclude_ii": True}, {"mode": "ball"}, {"mode": "nearest"}, {"mode": "cube", "r_max": 1.0}, {"rmax": 1.0},
                        {"r_max": 1.0, "foo": 2}, {"r_max": -1.0}, {"r_max": 0.0}, {"r_max": 1.0, "r_min": 1.0}, {"r_max": 1.0, "r_min": 3.0}, {"num_neighbors": 0},
                        {"num_neighbors": 2, "mode": "ball"}, {"r_max": 8.0}, {"r_max": 4.01}, {"r_max": "a"}, {"num_neighbors": "a"}, {"r_max": [1.0]},
                        {"num_neighbors": -3}):
                if k == "link" and bad.get("r_max") in (8.0, 4.01):
                    continue             # the case "far"
                refuse(ctx, "%s with query arguments %s" % (k, bad), lambda: nq.query(s.p, bad).toNeighborList())
                refuse(ctx, "%s iterated with query arguments %s" % (k, bad), lambda: list(nq.query(s.p, bad)))
            for bad in (None, 3, "ball", [("r_max", 1.0)]):
                refuse(ctx, "%s with query arguments %r" % (k, bad), lambda: nq.query(s.p, bad).toNeighborList())


def reach(ctx):
    """Radii beyond half the distance of one pair of planes only."""
    L = freud.locality
    for spec in ((4, 9, 8, 0, 0, 0), (9, 4, 8, 0, 0, 0), (9, 8, 4, 0, 0, 0), (8, 6, 7, 1.0, -0.75, 0.5), (7, 8, 6, -0.5, 0.25, 1.0), (4, 9, 0, 0, 0, 0), (9, 4, 0, 0, 0, 0),
                 (6, 7, 0, 1.0, 0, 0)):
        cell = ref.Cell(spec)
        p = ref.generic(cell, 9, 2)
        half = float(cell.planes.min()) / 2
        for k, nq in (("aabb", L.AABBQuery(cell.freud(), p)), ("cell", L.CellQuery(cell.freud(), p)), ("raw", L.NeighborQuery.from_system((cell.freud(), p)))):
            for f in (1.001, 1.3, 2.0):
                refuse(ctx, "%s in %s with r_max %g of the half distance of its planes" % (k, spec, f), lambda: nq.query(p, {"r_max": f * half}).toNeighborList())
            ctx.step()
            nq.query(p, {"r_max": 0.999 * half}).toNeighborList()


def far(ctx):
    """Radii for which a point may meet several images of another."""
    for d in (2, 3):
        for k, s, nq in finders(d):
            if k == "link":
                for r in (4.01, 8.0, 100.0):
                    ctx.step()
                    try:
                        nq.query(s.p, {"r_max": r}).toNeighborList()
                    except REFUSED:
                        continue
                    ctx.fail("LinkCell takes r_max = %g in a box of length 8" % r, key="link-large-radius")


def boxes(ctx):
    """Arrays of the wrong shape for the operations of boxes."""
    for d in (2, 3):
        s = zoo.System("cube8" if d == 3 else "sq", "gen:9")
        b, p = s.box, s.p
        for what, y in mangled(p):
            if what in ("one short", "one long", "empty", "half", "twice"):
                if what != "empty":
                    refuse(ctx, "distances to %s" % what, lambda: b.compute_distances(y, p))
                    refuse(ctx, "distances from %s" % what, lambda: b.compute_distances(p, y))
                    refuse(ctx, "unwrapping with images %s" % what, lambda: b.unwrap(p, np.zeros(y.shape, int)))
                    refuse(ctx, "masses of %s" % what, lambda: b.center_of_mass(y, s.masses))
                    refuse(ctx, "centering %s" % what, lambda: b.center(y, s.masses))
                continue
            if what == "flat":
                y = y[:4]
            for op in ("wrap", "make_absolute", "make_fractional", "get_images", "contains", "center", "center_of_mass"):
                refuse(ctx, "%s of points %s (%s)" % (op, what, np.shape(y)), lambda: getattr(b, op)(y))
            if what != "scalar":
                refuse(ctx, "unwrapping points %s" % what, lambda: b.unwrap(y, np.zeros((9, 3), int)))
            refuse(ctx, "distances to points %s" % what, lambda: b.compute_distances(y, p))
            refuse(ctx, "all distances to points %s" % what, lambda: b.compute_all_distances(p, y))
        for op in ("wrap", "make_absolute", "make_fractional"):
            for out in (np.zeros((8, 3), np.float32), np.zeros((9, 3)), np.zeros((9, 4), np.float32), np.zeros((9, 6), np.float32)[:, ::2]):
                refuse(ctx, "%s into an output of shape %s %s" % (op, out.shape, out.dtype), lambda: getattr(b, op)(p, out=out))
        for m in (s.masses[:-1], np.ones((9, 1)), np.ones(0)):
            refuse(ctx, "%s masses" % (m.shape,), lambda: b.center_of_mass(p, m))


def special(ctx):
    """Arrays that are not per point."""
    E, P, D, X = freud.environment, freud.pmft, freud.density, freud.diffraction
    for d in (2, 3):
        s = zoo.System("cube8" if d == 3 else "sq", "gen:9")
        nbr = {"r_max": s.r}
        for what, y in mangled(np.eye(4, dtype=np.float32)[:3]):
            if what in ("one short", "one long", "half", "twice", "flat", "scalar", "transposed", "empty"):
                if what not in ("flat", "scalar", "transposed"):
                    continue
                if what == "flat":
                    y = y[:5]
            for name, f in (("AngularSeparationNeighbor", lambda: E.AngularSeparationNeighbor().compute(s.system(freud), s.quats, equiv_orientations=y, neighbors=nbr)),
                            ("AngularSeparationGlobal", lambda: E.AngularSeparationGlobal().compute(s.quats[:2], s.quats, y)),
                            ("LocalBondProjection", lambda: E.LocalBondProjection().compute(s.system(freud), s.quats, s.proj, equiv_orientations=y, neighbors=nbr)),
                            ("PMFTXYZ", lambda: P.PMFTXYZ(1, 1, 1, 4).compute((freud.box.Box.cube(8), s.p), s.quats, equiv_orientations=y, neighbors=nbr)),
                            ("DiffractionPattern view", lambda: X.DiffractionPattern(8).compute((freud.box.Box.cube(8), s.p), view_orientation=y))):
                refuse(ctx, "%s with equivalent orientations %s %s" % (name, what, np.shape(y)), f)
        for what, y in mangled(s.proj):
            if what in ("one short", "one long", "half", "twice", "empty", "transposed"):
                continue
            if what == "flat":
                y = y[:4]
            refuse(ctx, "LocalBondProjection on vectors %s" % (np.shape(y),), lambda: E.LocalBondProjection().compute(
                s.system(freud), s.quats, y, neighbors=nbr))
        for y in (np.ones(8), np.ones(10), np.ones((9, 2)), np.ones((3, 9))):
            refuse(ctx, "DiffractionPattern with weights %s" % (y.shape,), lambda: X.DiffractionPattern(8).compute((freud.box.Box.cube(8), s.p), weights=y))
            refuse(ctx, "GaussianDensity with values %s" % (y.shape,), lambda: D.GaussianDensity((4,) * d, 1.0, 0.5).compute(s.system(freud), y))
        for y in ([1.0], [1.0, 2.0], [1, 2, 3, 4], np.ones((2, 3)), -1.0, [1.0, -1.0, 1.0]):
            if d == 2 and np.shape(y) in ((2,), (3,)):
                continue
            refuse(ctx, "PeriodicBuffer with buffer %s" % (y,), lambda: freud.locality.PeriodicBuffer().compute(s.system(freud), y))
        for y in (s.quats[:-1], np.zeros((9, 3), np.float32), s.quats[None], s.quats.ravel()):
            refuse(ctx, "RotationalAutocorrelation of %s" % (y.shape,), lambda: freud.order.RotationalAutocorrelation(4).compute(s.quats, y))
            refuse(ctx, "RotationalAutocorrelation from %s" % (y.shape,), lambda: freud.order.RotationalAutocorrelation(4).compute(y, s.quats))
            if y.shape != (8, 4):
                refuse(ctx, "Cubatic of %s" % (y.shape,), lambda: freud.order.Cubatic(3, 0.5, 0.5).compute(y))


def lists(ctx):
    """Neighbor lists of arrays that are no list."""
    N = freud.locality.NeighborList
    for m, n in itertools.product((1, 2, 4), repeat=2):
        for k in (1, 2, 3, 6):
            i = np.sort(np.arange(k) % m)
            j = np.arange(k)[::-1] % n
            v = np.ones((k, 3), np.float32)
            w = np.full(k, 0.5, np.float32)
            nl = N.from_arrays(m, n, i, j, v, w)
            ctx.step()
            for a in range(k):
                for bad in (m, m + 1, 2 ** 32 - 1, 2 ** 31):
                    x = i.astype(np.uint32)
                    x[a] = bad
                    refuse(ctx, "a list of %d points around %d with query points %s" % (n, m, x), lambda: N.from_arrays(m, n, x, j, v, w))
                for bad in (n, n + 1, 2 ** 32 - 1, 2 ** 31):
                    x = j.astype(np.uint32)
                    x[a] = bad
                    refuse(ctx, "a list of %d points around %d with points %s" % (n, m, x), lambda: N.from_arrays(m, n, i, x, v, w))
            for x in {tuple(x) for x in itertools.permutations(i.tolist())} if k < 6 else {tuple(i[::-1])}:
                if list(x) != sorted(x):
                    refuse(ctx, "a list with query points %s" % (x,), lambda: N.from_arrays(m, n, x, j, v, w))
            for e in (-1, 1):
                longer = lambda a: a[:e] if e < 0 else np.concatenate([a, a[-1:]])  # noqa
                refuse(ctx, "%d bonds with %d query points" % (k, k + e), lambda: N.from_arrays(m, n, longer(i), j, v, w))
                refuse(ctx, "%d bonds with %d points" % (k, k + e), lambda: N.from_arrays(m, n, i, longer(j), v, w))
                refuse(ctx, "%d bonds with %d vectors" % (k, k + e), lambda: N.from_arrays(m, n, i, j, longer(v), w))
                refuse(ctx, "%d bonds with %d weights" % (k, k + e), lambda: N.from_arrays(m, n, i, j, v, longer(w)))
                if e < 0:
                    refuse(ctx, "%d bonds with a filter of %d" % (k, k + e), lambda: nl.copy().filter(longer(np.ones(k, bool))))
            for x in (i[:, None], i[None], np.tile(i, (2, 1))):
                refuse(ctx, "query points %s" % (x.shape,), lambda: N.from_arrays(m, n, x, j, v, w))
                refuse(ctx, "points %s" % (x.shape,), lambda: N.from_arrays(m, n, i, x, v, w))
                refuse(ctx, "weights %s" % (x.shape,), lambda: N.from_arrays(m, n, i, j, v, x))
                refuse(ctx, "a filter %s" % (x.shape,), lambda: nl.copy().filter(x > -1))
            for x in (v[:, :2], v.ravel(), v[None], np.ones((k, 4), np.float32), v.T if k != 3 else v[:2]):
                refuse(ctx, "vectors %s of %d bonds" % (x.shape, k), lambda: N.from_arrays(m, n, i, j, x, w))
            for r in ((0,), (-1.0,), (1.0, -0.5), (1.0, 1.0), (1.0, 2.0)):
                refuse(ctx, "filter_r%s" % (r,), lambda: nl.copy().filter_r(*r))
            got = nl[:].tolist(), nl.weights.tolist()
            ctx.require(got == (np.stack([i, j], -1).tolist(), w.tolist()), lambda: "after refusals the list is %s" % (got,))
