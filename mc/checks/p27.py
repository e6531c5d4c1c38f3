"""Results do not depend on the order of points or on where the origin of a periodic system lies."""
import copy
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "37 computations x 9 systems of up to 300 points (2D and 3D, tilted, with query points) x both kinds of queries: 10 translations (by fractions of the box along each "
             "direction and all) and their wrapped points; 8 orders of points and of query points, every result against the permuted one; "
             "every order of 4 points for 11 computations",
    "thorough": "as quick with 15 systems and 24 orders and translations",
}
HANG = 200
SYS = {"3": [("cube8", "gen:9", None), ("generic", "gen:12:3", "gen:5:8"), ("odd", "gen:20:6", "gen:9:4"), ("trineg", "gen:60:2", None), ("cube8", "gen:140:6", "gen:160:7")],
       "2": [("sq", "gen:9", None), ("neg2", "gen:12:3", "gen:5:8"), ("tri2", "gen:20:6", None), ("sq", "gen:140:6", "gen:160:7")]}
MORE = {"3": [("slab", "gen:14:9", None), ("tri", "gen:7:5", "gen:16:7"), ("odd", "gen:30:2", None), ("trineg", "gen:25:4", "gen:25:9")],
        "2": [("rect", "gen:14:9", None), ("odd2", "gen:7:5", "gen:16:7"), ("sq", "gen:30:2", "gen:3:3"), ("tri2", "gen:25:4", "gen:25:9")]}
POINT = ("p", "angles", "quats", "values", "keys", "labels", "masses")
QUERY = ("q", "qangles", "qquats", "qvalues")
NOT = {"angglob", "cubatic", "msd", "diffr", "rotauto", "buffer", "bufimg"}
FIXED = {"gauss2", "gauss3", "voxel2", "voxel3"}        # grids stay where they are


def setup(ctx):
    global freud, C
    import freud
    C = {k: e for k, e in zoo.catalog().items() if k not in NOT}


def cases(tier):
    th = tier == "thorough"
    for name in sorted(C):
        for d in C[name].dims:
            for s in SYS[d] + (MORE[d] if th else []):
                if s[2] is not None and not C[name].query:
                    s = (s[0], s[1], None)
                for w in ("move", "order"):
                    yield {"e": name, "s": s, "c": w, "n": 24 if th else 8}
    for name in ("rdf", "corr", "cluster", "cluskeys", "cprops", "hexw", "sann", "rad", "locden", "proj", "bod"):
        if name not in C:
            continue
        for d in C[name].dims:
            for f in range(24):
                yield {"e": name, "s": ("sq" if d == "2" else "cube8", "gen:4:6", None), "c": "all4", "first": f}


def clusters(idx):
    out = {}
    for k, c in enumerate(idx):
        out.setdefault(int(c), set()).add(k)
    return sorted(map(sorted, out.values()))


def mapped(e, r, pi, rho):
    """Results of a permuted system in the numbering of the original one."""
    out = {}
    nl = [k for k in r if k.endswith(".i")]
    back = lambda x, p: (lambda y: (y.__setitem__(p, x), y)[1])(np.empty_like(x))  # noqa
    if nl:
        b = nl[0][:-2]
        i, j = rho[r[b + ".i"]], pi[r[b + ".j"]]
        o = np.lexsort((*np.round(r[b + ".v"], 2).T, np.round(r[b + ".d"], 3), j, i))
        for k, v in r.items():
            if k == b + ".i":
                v = i
            elif k == b + ".j":
                v = j
            elif (e.per or e.bond) and not k.startswith(b + ".") and k not in e.bond:
                continue
            out[k] = v[o] if len(v) == len(o) else v
        if not (e.per or e.bond):
            return out
    for k, v in r.items():
        if k in out or k.startswith("polytopes"):
            continue
        if k.split("[")[0] in e.per:
            out[k] = back(v, rho)
        elif k in ("particle_order", "num_neighbors") or (k == "density" and e.name == "locden"):
            out[k] = back(v, rho)
        elif k == "cluster_idx":
            full = back(v, pi)
            out[k] = np.array([min(m for m in range(len(full)) if full[m] == c) for c in full])
        elif k == "cluster_keys":
            if e.name == "cluskeys":
                continue
            groups, g = [], []
            for x in v:
                if x < 0 or x > 10 ** 9:
                    groups.append(sorted(pi[np.array(g, int)].tolist()))
                    g = []
                else:
                    g.append(x)
            out[k] = np.array(sum((x + [-1] for x in sorted(groups)), []))
        elif k == "point_ids":
            out[k] = np.sort(pi[v])
        elif k == "query_point_ids":
            out[k] = np.sort(rho[v])
        else:
            out[k] = v
    return out


def permuted(s, pi, rho):
    t = copy.copy(s)
    for k in POINT:
        setattr(t, k, np.ascontiguousarray(getattr(s, k)[pi]))
    for k in QUERY:
        x = getattr(s, k)
        if x is not None:
            setattr(t, k, np.ascontiguousarray(x[rho]))
    return t


def moved(s, t):
    u = copy.copy(s)
    u.p = np.float32(wrap(s.cell, s.p.astype(float) + t))
    if s.q is not None:
        u.q = np.float32(wrap(s.cell, s.q.astype(float) + t))
    return u


def wrap(c, x):
    f = x @ c.hinv.T + 0.5
    f -= np.floor(f)
    f = np.minimum(f, 1 - 1e-7)
    if c.is2d:
        f[:, 2] = 0.5
    return (f - 0.5) @ c.h.T


def modes(e, s):
    for m in ("ball", "near") if e.nbr else (None,):
        if m == "near" and any(s.cell.spec[3:]):
            d = freud.locality.AABBQuery(s.box, s.p).query(s.p if s.q is None else s.q, s.nbr(m)).toNeighborList().distances
            if d.max() > 0.99 * s.half:
                continue
        yield m


def run(e, s, m):
    o = e.make(s)
    e.run(o, s, m)
    return e.read(o)


def check(case, ctx):
    e = C[case["e"]]
    s = zoo.System(*case["s"])
    if not zoo.suits(e, s) or (s.n > 100 and "bin_counts" in e.reads):
        return                       # of many bonds, some lie at an edge up to rounding
    n, m = s.n, s.m
    for mode in modes(e, s):
        ident = np.arange(n), np.arange(m)
        base = mapped(e, run(e, s, mode), *ident)
        if case["c"] == "move":
            if e.name in FIXED:
                return
            for t in shifts(s, case["n"]):
                u = moved(s, t)
                r = mapped(e, run(e, u, mode), *ident)
                if e.name == "cprops":
                    covariant(ctx, s, base, r, t)
                ctx.step()
                ctx.state()
                d = zoo.differ(base, r, rtol=1e-3)
                ctx.require(d is None, lambda: "%s (%s) of %s moved by %s: %s" % (e.name, mode, case["s"], t.tolist(), d))
            continue
        if case["c"] == "all4":
            orders = [(np.array(x), np.array(x)) for x in list(itertools.permutations(range(4)))[case["first"]:case["first"] + 1]]
        else:
            orders = []
            for k in range(case["n"]):
                rs = np.random.RandomState(k)
                pi = np.arange(n)[::-1].copy() if k == 0 else np.roll(np.arange(n), 1) if k == 1 else rs.permutation(n)
                orders.append((pi, pi if s.q is None else np.arange(m) if k == 2 else rs.permutation(m)))
                if k == 3 and s.q is not None:
                    orders.append((np.arange(n), orders[-1][1]))
        for pi, rho in orders:
            r = mapped(e, run(e, permuted(s, pi, rho), mode), pi, rho)
            ctx.step()
            ctx.state()
            d = zoo.differ(base, r)
            ctx.require(d is None, lambda: "%s (%s) of %s in the order %s, %s: %s" % (e.name, mode, case["s"], pi.tolist(), rho.tolist(), d))
    ctx.traces += 1


def covariant(ctx, s, a, b, t):
    """Centers move along, modulo the box."""
    for k in ("centers", "centers_of_mass"):
        d = (b[k].astype(float) - a[k] - t) @ s.cell.hinv.T
        d -= np.round(d)
        if s.cell.is2d:
            d[:, 2] = 0
        ctx.require(np.abs(d).max() < 1e-3, lambda: "%s do not move with the points: off by %s of the box" % (k, d.tolist()))
    for k in ("centers", "centers_of_mass"):
        b[k] = a[k]


def shifts(s, n):
    h = s.cell.h
    fr = [(.5, 0, 0), (0, .5, 0), (.25, .25, 0), (-.37, .61, .23), (.013, -.9, .49), (1, 0, 0), (0, -1, 1), (.77, .33, -.71), (.1, .2, .3), (-.45, .45, .05)]
    fr += [tuple(np.random.RandomState(k).rand(3) - .5) for k in range(n - 8)]
    for f in fr:
        f = np.array(f)
        if s.cell.is2d:
            f[2] = 0
        yield h @ f
