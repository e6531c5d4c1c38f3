"""Results do not depend on the form in which systems, arrays and neighbors are given."""
import copy
import types
import warnings

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "41 computations x 9 systems of up to 300 points (2D and 3D, tilted, with query points): 26 forms of a system (finders, tuples with every box-like form, objects "
             "of gsd, MDAnalysis, HOOMD-blue, garnett and OVITO), 8 forms of each array, 14 forms of neighbors; inputs compared before and after",
    "thorough": "as quick with 15 systems",
}
HANG = 200
SYS = {"3": [("cube8", "gen:9", None), ("generic", "gen:12:3", "gen:5:8"), ("cube8", "gen:20:6", "gen:9:4"), ("trineg", "gen:60:2", None), ("cube8", "gen:140:6", "gen:160:7")],
       "2": [("sq", "gen:9", None), ("neg2", "gen:12:3", "gen:5:8"), ("tri2", "gen:20:6", None), ("sq", "gen:140:6", "gen:160:7")]}
MORE = {"3": [("slab", "gen:14:9", None), ("tri", "gen:7:5", "gen:16:7"), ("odd", "gen:30:2", None), ("trineg", "gen:25:4", "gen:25:9")],
        "2": [("rect", "gen:14:9", None), ("odd2", "gen:7:5", "gen:16:7"), ("sq", "gen:30:2", "gen:3:3"), ("tri2", "gen:25:4", "gen:25:9")]}


def setup(ctx):
    global freud, C
    import freud
    C = zoo.catalog()


def cases(tier):
    for name in sorted(C):
        for d in C[name].dims:
            for s in SYS[d] + (MORE[d] if tier == "thorough" else []):
                if name == "diffr":
                    s = ("cube8", s[1], None)
                if s[2] is not None and not C[name].query:
                    s = (s[0], s[1], None)
                for what in ("systems", "arrays") + (("neighbors",) if C[name].nbr else ()):
                    yield {"e": name, "s": s, "c": what}
    for box in ref.BOXES:
        for what in ("finders",):
            yield {"e": None, "s": (box, "gen:17:5", "gen:6:9"), "c": what}


def fake(path, **kw):
    mod, name = path.rsplit(".", 1)
    return type(name, (), dict({"__module__": mod}, **kw))()


def mda():
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from MDAnalysis.coordinates.timestep import Timestep
    except ImportError:
        return None
    return Timestep


def NS(**kw):
    return types.SimpleNamespace(**kw)


def boxes(s):
    """Everything a box may be read from."""
    b, c = s.box, s.cell
    Lx, Ly, Lz, xy, xz, yz = c.spec
    yield "tuple", (Lx, Ly, Lz, xy, xz, yz)
    yield "array", np.array(c.spec)
    yield "matrix", b.to_matrix()
    yield "dict", b.to_dict()
    yield "short dict", dict(Lx=Lx, Ly=Ly, xy=xy, **({} if c.is2d else {"Lz": Lz, "xz": xz, "yz": yz}))
    yield "object", NS(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, dimensions=c.dim)
    if c.is2d:
        yield "hoomd 2D", NS(Lx=Lx, Ly=Ly, Lz=1, xy=xy, xz=0, yz=0, dimensions=2)
    if not any(c.spec[3:]):
        yield "lengths", [Lx, Ly] if c.is2d else [Lx, Ly, Lz]
    yield "copy", freud.box.Box.from_box(b)


def systems(s):
    b, p, c = s.box, s.p, s.cell
    Lx, Ly, Lz, xy, xz, yz = c.spec
    for k in ("tuple", "aabb", "link", "cell", "raw"):
        yield k, s.system(freud, k)
    yield "wide link", freud.locality.LinkCell(b, p, cell_width=0.95 * s.half)
    yield "list", [b, p]
    yield "object", NS(box=b, points=p)
    yield "object with dict", NS(box=b.to_dict(), points=p.tolist())
    for k, x in boxes(s):
        yield k, (x, p)
    yield "aabb of object", freud.locality.AABBQuery.from_system(NS(box=b, points=p))
    cfg = [Lx, Ly, Lz if not c.is2d else 1, xy, xz, yz]
    for path in ("gsd.hoomd.Frame", "gsd.hoomd.Snapshot", "hoomd.snapshot.Snapshot"):
        yield path, fake(path, configuration=NS(box=cfg, dimensions=c.dim), particles=NS(position=p))
    yield "hoomd 2", NS(box=NS(Lx=Lx, Ly=Ly, Lz=cfg[2], xy=xy, xz=xz, yz=yz, dimensions=c.dim), particles=NS(position=p))
    yield "garnett", fake("garnett.trajectory.Frame", box=NS(Lx=Lx, Ly=Ly, Lz=cfg[2], xy=xy, xz=xz, yz=yz, dimensions=c.dim), position=p)
    yield "old garnett", fake("garnett.trajectory.Frame", box=NS(Lx=Lx, Ly=Ly, Lz=cfg[2], xy=xy, xz=xz, yz=yz, dimensions=c.dim), positions=p)
    h = np.zeros((3, 4))
    h[:, :3] = c.h
    yield "ovito", fake("ovito.data.DataCollection", cell=NS(matrix=h, is2D=c.is2d), particles=NS(positions=p))
    if not c.is2d:
        la = b.to_box_lengths_and_angles()
        dims = np.float32([*la[:3], *np.rad2deg(la[3:])])
        for path in ("MDAnalysis.coordinates.timestep.Timestep", "MDAnalysis.coordinates.base.Timestep"):
            yield path, fake(path, triclinic_dimensions=np.float32(c.h.T), dimensions=dims, positions=p)
        T = mda()
        if T is not None:
            ts = T(len(p))
            ts.dimensions = dims
            ts.positions = p
            yield "real MDAnalysis", ts
    try:
        import gsd.hoomd
    except ImportError:
        return
    f = gsd.hoomd.Frame()
    f.configuration.box = cfg
    f.configuration.dimensions = c.dim
    f.particles.N = len(p)
    f.particles.position = p
    yield "real gsd", f


ARRAYS = ("p", "q", "angles", "qangles", "quats", "qquats", "values", "qvalues", "keys", "labels", "masses", "proj")
NARRAY = 8
# the catalog computes with these itself
NOLIST = {"corrc", "gauss3", "msd"}


def array_form(x, k):
    if k == 0:
        return x.astype(np.float64 if x.dtype.kind == "f" else np.int64)
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        big = np.zeros([2 * n for n in x.shape], x.dtype)
        big[...] = 7
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if k == 3:
        y = x.copy()
        y.flags.writeable = False
        return y
    if k == 4:
        return np.ascontiguousarray(x[::-1])[::-1]
    if k == 7:
        return x.tolist()
    if k == 5:
        return x.view(type("Sub", (np.ndarray,), {}))
    return x.astype(x.dtype.newbyteorder())


def neighbors(s, mode):
    base = s.nbr(mode)
    ex = s.q is None
    qp = s.p if s.q is None else s.q
    yield "dict", base
    yield "dict with mode", dict(base, mode={"ball": "ball", "near": "nearest"}[mode])
    if "exclude_ii" in base:
        yield "default exclusion", {k: v for k, v in base.items() if k != "exclude_ii"}
    yield "numpy numbers", {k: np.float32(v) if isinstance(v, float) else np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else v
                            for k, v in base.items()}
    nl = freud.locality.AABBQuery(s.box, s.p).query(qp, base).toNeighborList()
    yield "list", nl
    for f in ("link", "raw") + (("cell",) if mode == "ball" else ()):
        yield "list of " + f, s.system(freud, f).query(qp, base).toNeighborList()
    yield "copy", nl.copy()
    i, j, v, d, w = ref.nlist_arrays(nl)
    yield "arrays", freud.locality.NeighborList.from_arrays(len(qp), s.n, i, j, v, w)
    yield "lists", freud.locality.NeighborList.from_arrays(len(qp), s.n, i.tolist(), j.tolist(), v.tolist(), w.tolist())
    yield "sorted", (lambda x: (x.sort(by_distance=True), x)[1])(nl.copy())
    yield "sorted twice", (lambda x: (x.sort(by_distance=True), x.sort(), x)[2])(nl.copy())
    if mode == "ball":
        yield "filtered", (lambda x: (x.filter_r(base["r_max"]), x)[1])(
            freud.locality.AABBQuery(s.box, s.p).query(qp, {"r_max": min(1.09 * base["r_max"], 0.99 * s.half), "exclude_ii": ex}).toNeighborList())
        al = freud.locality.NeighborList.all_pairs((s.box, s.p), s.q, ex)
        ai, aj, av, ad, aw = ref.nlist_arrays(al)
        al.filter(ad < base["r_max"])
        if not any(s.cell.spec[3:]):
            yield "all pairs filtered", al


def canonical(r):
    """Results with the bonds of neighbor lists (and what goes with them) in a fixed order."""
    for k in ("nlist", "filtered_nlist"):
        if k + ".i" in r:
            o = np.lexsort((np.round(r[k + ".d"], 4), r[k + ".j"], r[k + ".i"]))
            n = len(o)
            return {x: v[o] if v.ndim and len(v) == n and (x.startswith(k) or x in ("angles", "projections", "normed_projections", "sph", "ql_ij")) else v for x, v in r.items()}
    return r


def snapshot(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return dict(x)
    return copy.copy(x)


def state(s):
    out = {k: np.array(getattr(s, k)) for k in ARRAYS if getattr(s, k) is not None}
    b = s.box
    out["box"] = np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D, *b.periodic])
    return out


def same_inputs(ctx, s, before, what):
    after = state(s)
    for k in before:
        ctx.require(np.array_equal(before[k], after[k], equal_nan=True), lambda: "%s changed its input %s" % (what, k))


def check(case, ctx):
    box, p, q = case["s"]
    if case["c"] == "finders":
        return finders(case, ctx)
    e = C[case["e"]]
    s = zoo.System(box, p, q)
    if not zoo.suits(e, s) or (s.n > 100 and "bin_counts" in e.reads):
        return                       # of many bonds, some lie at an edge up to rounding
    for mode in ("ball", "near") if e.nbr else (None,):
        if mode == "near" and any(s.cell.spec[3:]):
            # beyond half the plane distance of tilted boxes, finders may choose other images
            d = freud.locality.AABBQuery(s.box, s.p).query(s.p if s.q is None else s.q, s.nbr(mode)).toNeighborList().distances
            if d.max() > 0.99 * s.half:
                ctx.count("far neighbors in tilted boxes left out")
                continue
        o = e.make(s)
        before = state(s)
        e.run(o, s, mode)
        base = e.read(o)
        same_inputs(ctx, s, before, e.name)
        ctx.step()
        if case["c"] == "systems":
            for k, y in systems(s):
                if k == "cell" and mode == "near":
                    continue                 # documented: cell queries answer ball queries only
                o = e.make(s)
                kw = {"neighbors": s.nbr(mode)} if e.nbr else {}
                try:
                    e._run(o, s, y, kw)
                except (TypeError, ValueError, AttributeError, RuntimeError) as x:
                    ctx.fail("%s refuses the system given as %s: %r" % (e.name, k, x))
                same(ctx, e, base, e.read(o), "the system as %s" % k)
                same_inputs(ctx, s, before, e.name)
        elif case["c"] == "arrays":
            for a in ARRAYS:
                x = getattr(s, a)
                if x is None:
                    continue
                for k in range(NARRAY):
                    if k == 7 and e.name in NOLIST:
                        continue
                    t = copy.copy(s)
                    y = array_form(x, k)
                    setattr(t, a, y)
                    keep = np.array(y)
                    o = e.make(t)
                    try:
                        e.run(o, t, mode)
                    except (TypeError, ValueError, AttributeError, RuntimeError) as z:
                        if k in (3, 6) and isinstance(z, TypeError):
                            continue         # read-only and byte-swapped arrays may be refused
                        ctx.fail("%s refuses %s in form %d: %r" % (e.name, a, k, z))
                    same(ctx, e, base, e.read(o), "%s in form %d" % (a, k))
                    ctx.require(np.array_equal(keep, y), lambda: "%s changed its input %s" % (e.name, a))
        else:
            for k, nb in neighbors(s, mode):
                if k == "default exclusion" and e.name == "interface":
                    continue             # is always given query points
                keep = dict(nb) if isinstance(nb, dict) else [np.array(x) for x in ref.nlist_arrays(nb)]
                o = e.make(s)
                e._run(o, s, s.system(freud), {"neighbors": nb})
                same(ctx, e, base, e.read(o), "neighbors (%s) as %s" % (mode, k))
                if isinstance(nb, dict):
                    ctx.require(nb == keep, lambda: "%s changed its query arguments" % e.name)
                else:
                    ctx.require(all(np.array_equal(x, y) for x, y in zip(keep, ref.nlist_arrays(nb))), lambda: "%s changed its neighbor list" % e.name)
    ctx.traces += 1


def same(ctx, e, a, b, what):
    ctx.step()
    ctx.state()
    r = zoo.differ(canonical(a), canonical(b))
    ctx.require(r is None, lambda: "%s with %s: %s" % (e.name, what, r))


def finders(case, ctx):
    """Finders made from any system hold its box and points."""
    s = zoo.System(*case["s"])
    for k, y in systems(s):
        for cls in (freud.locality.NeighborQuery, freud.locality.AABBQuery, freud.locality.LinkCell, freud.locality.CellQuery):
            if isinstance(y, freud.locality.NeighborQuery):
                if not isinstance(y, cls):
                    continue
                n = cls.from_system(y)
                ctx.require(n is y, lambda: "from_system of a %s makes another" % k)
            elif cls is freud.locality.LinkCell:
                n = cls(s.box, s.p, cell_width=0.8 * s.half)
            else:
                n = cls.from_system(y)
            b = n.box
            ctx.step()
            ctx.require(np.allclose([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz], [s.cell.L[0], s.cell.L[1], s.cell.L[2], *s.cell.spec[3:]], atol=1e-5)
                        and b.is2D == s.cell.is2d, lambda: "system as %s: box %s of %s" % (k, b, s.cell.spec))
            ctx.require(np.array_equal(n.points, s.p), lambda: "system as %s: other points" % k)
            ctx.state()
    ctx.traces += 1
