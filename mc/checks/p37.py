"""A periodic system and its replicas are the same system."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "30 computations and 8 kinds of queries x 4 periodic systems (tilted too, with query points) in 3D and 2D: every number of replicas from 1 to 3 "
             "along each direction, and numbers that make more than 65536 points in four shapes; every per-point and per-bond result against "
             "that of the one cell, sums against their multiples, averages against the same",
    "thorough": "as quick with up to 5 replicas along each direction and more than 131072 points",
}
HANG = 600

# coordinates, lengths and tilts are short binary fractions, so that replicas are exact in single precision
CELLS = {"3": [(8, 8, 8, 0, 0, 0), (8, 16, 8, 0.25, -0.5, 0.125), (8, 8, 16, 0, 0, 0), (16, 8, 8, -0.5, 0.25, 0.25)],
         "2": [(8, 8, 0, 0, 0, 0), (16, 8, 0, 0.25, 0, 0), (8, 8, 0, 0, 0, 0), (8, 16, 0, -0.5, 0, 0)]}
SIZES = [(20, None), (9, None), (8, 5), (6, 13)]
PER, SAME, SUM, MUL, BOND = "per", "same", "sum", "times", "bond"
RULES = {
    "rdf": {"rdf": SAME, "n_r": SAME, "bin_counts": SUM}, "rdf_min": {"rdf": SAME, "n_r": SAME, "bin_counts": SUM},
    "rdf_fs": {"n_r": SAME, "bin_counts": SUM},
    "corr": {"correlation": SAME, "bin_counts": SUM}, "corrc": {"correlation": SAME, "bin_counts": SUM},
    "locden": {"density": PER, "num_neighbors": PER},
    "cluster": {"cluster_idx": "groups", "num_clusters": None, "cluster_keys": None},
    "cluster2": {"cluster_idx": "groups", "num_clusters": None},
    "pmftr12": {"bin_counts": SUM, "pmft": SAME}, "pmftxyt": {"bin_counts": SUM, "pmft": SAME},
    "pmftxy": {"bin_counts": SUM, "pmft": SAME}, "pmftxyz": {"bin_counts": SUM, "pmft": SAME},
    "bod": {"bin_counts": SUM, "bond_order": MUL}, "lbod": {"bin_counts": SUM, "bond_order": MUL},
    "obcd": {"bin_counts": SUM, "bond_order": MUL}, "oocd": {"bin_counts": SUM, "bond_order": MUL},
    "angsep": {"angles": BOND}, "proj": {"projections": BOND, "normed_projections": BOND},
    "angglob": {"angles": PER},
    "hex": {"particle_order": PER}, "hexw": {"particle_order": PER}, "rotauto": {"order": SAME, "particle_order": PER},
    "sann": {}, "rad": {}, "interface": {"point_ids": "ids", "query_point_ids": "qids", "point_count": SUM, "query_point_count": SUM},
    "gauss2": {"density": "grid"}, "gauss3": {"density": "grid"}, "voxel2": {"voxels": "grid"}, "voxel3": {"voxels": "grid"},
    "ball_aabb": {}, "balld_aabb": {}, "ball_link": {}, "ball_cell": {}, "ball_raw": {}, "near_aabb": {}, "neard_aabb": {}, "near_raw": {},
    "displaced": {"msd": SAME, "particle_msd": "columns"},
    "stein": {"order": SAME, "particle_order": PER, "ql": PER, "particle_harmonics": PER},
    "steinavg": {"order": SAME, "particle_order": PER, "ql": PER, "particle_harmonics": PER},
    "steinw": {"order": SAME, "particle_order": PER, "ql": PER, "particle_harmonics": PER},
    "solliq1": {"num_connections": PER, "ql_ij": BOND, "particle_harmonics": PER},
    "solliq0": {"num_connections": PER, "ql_ij": BOND, "particle_harmonics": PER},
    "nematic": {"order": SAME, "particle_tensor": PER, "nematic_tensor": SAME},
    "ldneig": {"sph": BOND}, "ldpart": {"sph": BOND}, "ldglob": {"sph": BOND},
    "voronoi": {"volumes": PER}, "contcoord": {"coordination": PER, "particle_order": PER},
}
QUERIES = {"rdf", "rdf_min", "rdf_fs", "corr", "corrc", "locden", "pmftr12", "pmftxyt", "pmftxy", "pmftxyz", "bod", "lbod", "obcd", "oocd", "angsep",
           "proj", "sann", "rad", "interface"}
SLOW = {"ball_link"}   # copies all cells for every cell visited
FAR = {"gauss2", "gauss3", "voxel2", "voxel3", "angglob"}


def entries(freud):
    C = zoo.catalog()
    C.update(zoo.nl_entries())
    D = freud.density
    for d, n in (("3", (5, 6, 7)), ("2", (6, 7))):
        k = lambda s, n=n: tuple(int(a * b) for a, b in zip(n, s.replicas))  # noqa
        C["gauss" + d] = zoo.Entry("gauss" + d, lambda s, k=k: D.GaussianDensity(k(s), 0.6 * s.r, 0.4 * s.r),
                                   lambda o, s, y, a: o.compute(y, s.values.astype(np.float32)), ["density"], dims=d, nbr=False, query=False, inexact=("density",))
        C["voxel" + d] = zoo.Entry("voxel" + d, lambda s, k=k: D.SphereVoxelization(k(s), 0.5 * s.r),
                                   lambda o, s, y, a: o.compute(y), ["voxels"], dims=d, nbr=False, query=False)
    # a radius at which the loneliest point has no neighbors
    C["cluster2"] = zoo.Entry("cluster2", lambda s: freud.cluster.Cluster(), lambda o, s, y, a: o.compute(y, neighbors={"r_max": s.lonely()}),
                              ["cluster_idx", "num_clusters"], nbr=False, query=False)
    C["angglob"] = zoo.Entry("angglob", lambda s: freud.environment.AngularSeparationGlobal(),
                             lambda o, s, y, a: o.compute(zoo.quats(3, 5), s.quats, zoo.EQUIV), ["angles"], nbr=False, query=False)
    C["rotauto"] = zoo.Entry("rotauto", lambda s: freud.order.RotationalAutocorrelation(6),
                             lambda o, s, y, a: o.compute(s.quats, s.back), ["order", "particle_order"], nbr=False, query=False, inexact=("order",))
    C["displaced"] = zoo.Entry("displaced", lambda s: freud.msd.MSD(), lambda o, s, y, a: o.compute(np.stack(
        [s.p, s.p + s.back[:, :3], s.p - 2 * s.back[:, 1:], s.p + s.back[:, 1:]])), ["msd", "particle_msd"], nbr=False, query=False, inexact=("msd", "particle_msd"))
    return C


def setup(ctx):
    global freud, C
    import freud
    C = entries(freud)


def cases(tier):
    top = 5 if tier == "thorough" else 3
    for name in sorted(C):
        if name not in RULES:
            continue
        for d in C[name].dims:
            for k in range(4):
                if SIZES[k][1] is not None and not C[name].query:
                    continue
                yield {"e": name, "d": d, "k": k, "top": top}
                for b in range(2):
                    if name in SLOW:
                        break
                    yield {"e": name, "d": d, "k": k, "big": b, "fact": 2 if tier == "thorough" else 1}


def coarse(cell, n, seed):
    """Points at multiples of 1/128, no two at one place, well apart from each other."""
    rs = np.random.RandomState(500 + seed)
    out = np.zeros((0, 3))
    while len(out) < n:
        x = np.round(cell.absolute(rs.rand(1, 3)) * 128) / 128
        if cell.is2d:
            x[:, 2] = 0
        f = cell.frac(x)[0, :cell.dim]
        if (f < 0.001).any() or (f > 0.999).any() or (len(out) and np.linalg.norm(cell.min_image(out - x), axis=1).min() < 0.5):
            continue
        out = np.concatenate([out, x])
    return out.astype(np.float32)


class Same(zoo.System):
    """A system of replicas."""

    def __init__(self, spec, n, m, R, d):
        cell = ref.Cell(spec)
        dim = cell.dim
        one = zoo.System(spec, coarse(cell, n, 1), None if m is None else coarse(cell, m, 2), seed=3)
        # a radius that no squared distance comes near: those are multiples of 1/128**2
        r = np.sqrt(np.round((0.9 * one.half) ** 2 * 128 ** 2) / 128 ** 2 + 0.5 / 128 ** 2)
        R = np.array(R[:dim])
        reps = np.array(list(itertools.product(*[range(k) for k in R])))
        shift = ((reps - (R - 1) / 2) @ cell.h[:dim, :dim].T)
        if dim == 2:
            shift = np.c_[shift, np.zeros(len(shift))]
        big = list(spec)
        for a in range(dim):
            big[a] = float(spec[a] * R[a])
        T = len(reps)
        put = lambda x: (np.asarray(x, float)[None] + shift[:, None]).reshape(-1, 3)  # noqa
        P, Q = put(one.p), None if m is None else put(one.q)
        for x in (P, Q):
            assert x is None or np.array_equal(x, x.astype(np.float32))
        zoo.System.__init__(self, tuple(big), P.astype(np.float32), None if m is None else Q.astype(np.float32), r=float(r))
        for k in ("angles", "quats", "values", "keys", "labels", "masses"):
            setattr(self, k, np.tile(getattr(one, k), (T,) + (1,) * (getattr(one, k).ndim - 1)))
        for k in ("qangles", "qquats", "qvalues"):
            setattr(self, k, getattr(self, k[1:]) if m is None else np.tile(getattr(one, k), (T,) + (1,) * (getattr(one, k).ndim - 1)))
        self.back = np.tile(one.quats[::-1], (T, 1))
        self.short = r
        self.half, self.replicas, self.reps, self.one, self.T = one.half, tuple(int(x) for x in R), reps, one, T

    def lonely(self):
        p = self.one.p.astype(float)
        D = (self.one.cell.min_image((p[None] - p[:, None]).reshape(-1, 3)) ** 2).sum(1).reshape(len(p), -1)
        np.fill_diagonal(D, np.inf)
        return float(min(self.short, np.sqrt(D.min(1).max() - 0.5 / 128 ** 2)))


def check(case, ctx):
    e = C[case["e"]]
    spec = CELLS[case["d"]][case["k"]]
    n, m = SIZES[case["k"]]
    dim = 2 if spec[2] == 0 else 3
    rule = RULES[e.name]

    def system(R):
        s = Same(spec, n, m, R, dim)
        if e.name in ("voxel2", "voxel3", "gauss2", "gauss3"):
            s.r *= 0.9
        return s

    def run(s):
        o = e.make(s)
        if e.nbr and e.name not in zoo_nl:
            e.run(o, s, nbr="ball")
        else:
            e.run(o, s)
        ctx.step()
        return e.read(o)
    small = system((1, 1, 1))
    base = run(small)
    if "near" in e.name and not decided(small, base):
        return
    if "big" in case:
        want = 65536 * case["fact"] * (2 if e.name == "cluster2" else 1)
        per = n
        if case["big"] == 0:
            k = int(np.ceil((want / per) ** (1 / dim) + 1e-9))
            Rs = [(k,) * dim]
            while np.prod(Rs[0]) * per <= want:
                Rs = [tuple(x + 1 for x in Rs[0])]
        elif dim == 3:
            k = int(np.sqrt(want / per)) + 1
            Rs = [(1, k, k), (k, k, 1)]
        else:
            k = int(np.sqrt(want / per / 4)) + 1
            Rs = [(4 * k, k), (k, 4 * k)]
        if e.name in FAR and case["big"]:
            return
    else:
        Rs = list(itertools.product(range(1, case["top"] + 1), repeat=dim))
        if case["top"] > 3 and dim == 3:
            Rs = [R for R in Rs if max(R) <= 3 or sorted(R)[1] <= 2]
    if e.name[:5] in ("gauss", "voxel") and any(spec[3:]):
        # the grid is not tilted
        Rs = [R for R in Rs if max(R[1:]) == 1]
    for R in Rs:
        s = system(R)

        def say(msg):
            ctx.fail("%s in %s, %d points%s, replicated %s: %s" % (e.name, spec, n, "" if m is None else ", %d query points" % m, R, msg))
        compare(e, rule, small, base, s, run(s), say)
        ctx.state()
    ctx.traces += 1


zoo_nl = {"ball_aabb", "balld_aabb", "ball_link", "ball_cell", "ball_raw", "near_aabb", "neard_aabb", "near_raw"}


def decided(small, base):
    """Whether the nearest points of all query points lie within half the cell and there is no tie for the last one."""
    nl = [k for k in base if k.endswith(".d") or k == "d"][0][:-1]
    i, d = base[nl + "i"], base[nl + "d"]
    q = small.p if small.q is None else small.q
    last = np.zeros(len(q))
    np.maximum.at(last, i, d)
    if last.max() > 0.99 * small.half:
        return False
    D = np.linalg.norm(small.cell.min_image((small.p[None].astype(float) - q[:, None]).reshape(-1, 3)), axis=1).reshape(len(q), -1)
    return not ((np.abs(D - last[:, None]) < 1e-4).sum(1) > 1).any()


def image(small, r, nl):
    """Replicas that the bonds of the one cell lead to."""
    i, j, v = r[nl + "i"], r[nl + "j"], r[nl + "v"]
    q = small.p if small.q is None else small.q
    t = (v - (small.p[j].astype(float) - q[i])) @ small.cell.hinv.T
    return np.round(t).astype(int)[:, :small.cell.dim]


def links(small, r, nl, s):
    """(i, j, row of the one cell's list) of all bonds of the replicas, sorted."""
    i, j = r[nl + "i"], r[nl + "j"]
    t = image(small, r, nl)
    R = np.array(s.replicas)
    to = (s.reps[:, None] + t[None]) % R
    index = np.zeros(to.shape[:2], int)
    for a in range(len(R)):
        index = index * R[a] + to[..., a]
    I = (np.arange(s.T)[:, None] * small.m + i).ravel()
    J = (index * small.n + j).ravel()
    row = np.tile(np.arange(len(i)), s.T)
    return I, J, row


def close(a, b, tol=2e-4):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind not in "fc":
        return a == b
    with np.errstate(invalid="ignore"):
        return (np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)


def compare(e, rule, small, base, s, got, say):
    T = s.T

    def same(k, a, b, tol=2e-4):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            say("%s has shape %s, expected %s" % (k, a.shape, b.shape))
        ok = close(a, b, tol)
        if not ok.all():
            w = tuple(int(x) for x in np.argwhere(~ok)[0])
            say("%s[%s] is %s, expected %s (%d of %d differ)" % (k, ", ".join(map(str, w)), a[w], b[w], (~ok).sum(), ok.size))
    nl = [k[:-1] for k in base if k.endswith(".i") or k == "i"]
    nl = nl[0] if nl else None
    if nl is not None:
        I, J, row = links(small, base, nl, s)
        if e.name != "voronoi":
            o = np.lexsort((J, I))
            i, j = got[nl + "i"], got[nl + "j"]
            if len(i) != len(I):
                say("%d bonds, expected %d" % (len(i), len(I)))
            if (np.diff(i) < 0).any():
                say("query points are not in order")
            g = np.lexsort((j, i))
            same("query_point_indices", i[g], I[o])
            same("point_indices", j[g], J[o])
            for x in "vdw":
                same({"v": "vectors", "d": "distances", "w": "weights"}[x], got[nl + x][g], base[nl + x][row[o]], 1e-6 if "link" not in e.name else 1e-4)
            for k, v in rule.items():
                if v == BOND:
                    same(k, got[k][g], base[k][row[o]])
        if "counts" in got:
            same("neighbor_counts", got["counts"], np.tile(base["counts"], T))
            same("segments", got["segments"][got["counts"] > 0], np.r_[0, np.cumsum(got["counts"])[:-1]][got["counts"] > 0])
    for k, v in rule.items():
        if v == SAME:
            same(k, got[k], base[k], 1e-3)
        elif v == SUM:
            same(k, np.asarray(got[k]).astype(np.int64), np.asarray(base[k]).astype(np.int64) * T)
        elif v == MUL:
            same(k, got[k], np.asarray(base[k], float) * T, 1e-3)
        elif v == PER:
            same(k, got[k], np.tile(base[k], (T,) + (1,) * (base[k].ndim - 1)))
        elif v == "columns":
            same(k, got[k], np.tile(base[k], (1, T)))
        elif v == "grid":
            a, b = np.asarray(base[k]), np.asarray(got[k])
            same(k, b, np.tile(a, tuple(s.replicas)[:a.ndim] + (1,) * (a.ndim - len(s.replicas))))
        elif v == "ids":
            same(k, np.sort(got[k]), (np.arange(T)[:, None] * small.n + np.sort(base[k])).ravel())
        elif v == "qids":
            same(k, np.sort(got[k]), (np.arange(T)[:, None] * small.m + np.sort(base[k])).ravel())
        elif v == "groups":
            groups(e, small, s, got, say)


def groups(e, small, s, got, say):
    """The clusters are the components of the graph of the replicas of the cell's bonds."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    nl = freud.locality.AABBQuery(small.box, small.p).query(small.p, {"r_max": small.lonely()} if e.name == "cluster2" else small.nbr("ball")).toNeighborList()
    i, j, v, d, w = ref.nlist_arrays(nl)
    I, J, _ = links(small, {"i": i, "j": j, "v": v}, "", s)
    k, lab = connected_components(coo_matrix((np.ones(len(I)), (I, J)), shape=(s.n, s.n)), directed=False)
    idx = got["cluster_idx"].astype(int)
    if int(got["num_clusters"]) != k or len(np.unique(idx)) != k or idx.max() != k - 1:
        say("%d clusters, expected %d" % (got["num_clusters"], k))
    pairs = np.unique(np.stack([idx, lab]), axis=1)
    if pairs.shape[1] != k:
        say("the clusters are not the components")
    n = np.bincount(idx)
    if (np.diff(n) > 0).any():
        say("clusters are not sorted by size")
    if "cluster_keys" not in got:
        return
    keys = got["cluster_keys"]
    c = np.cumsum(keys < 0)
    keep = keys >= 0
    if (np.bincount(keys[keep], minlength=s.n) != 1).any() or not np.array_equal(idx[keys[keep]], c[keep]):
        say("cluster_keys are not those of the clusters")
