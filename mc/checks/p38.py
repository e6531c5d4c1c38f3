"""Directions are alike: exchanging the axes of a box or mirroring it moves results with it."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "45 computations, lists and box operations x 5 boxes in 3D and 4 in 2D x with and without query points: all 48 (8 in 2D) exchanges and "
             "reversals of the axes of boxes without tilt, all 8 (4) reversals of tilted ones; grids, box operations, clusters and displacements also with every "
             "set of periodic directions",
    "thorough": "as quick with three sets of points and nearest neighbors as well",
}
HANG = 300
CELLS = {"3": [(7, 9, 6, 0, 0, 0), (8, 5, 16, 0, 0, 0), (10, 20, 5, 0, 0, 0), (7.3, 6.1, 5.7, 0.3, -0.4, 0.2), (8, 6, 7, 1.0, -0.75, 0.5)],
         "2": [(7, 9, 0, 0, 0, 0), (20, 5, 0, 0, 0, 0), (8, 7, 0, 0.5, 0, 0), (6.5, 5.5, 0, -0.4, 0, 0)]}
SAME, VEC, TENS, GRID, FRAC, INT, SET, PHASE, COUNT = "same", "vec", "tens", "grid", "frac", "int", "set", "phase", "count"
RULES = {
    "rdf": {"rdf": SAME, "n_r": SAME, "bin_counts": COUNT}, "rdf_min": {"rdf": SAME, "n_r": SAME, "bin_counts": COUNT},
    "rdf_fs": {"rdf": SAME, "n_r": SAME, "bin_counts": COUNT},
    "corr": {"correlation": SAME, "bin_counts": COUNT}, "corrc": {"correlation": SAME, "bin_counts": COUNT},
    "locden": {"density": SAME, "num_neighbors": SAME},
    "cluster": {"cluster_idx": COUNT, "num_clusters": COUNT, "cluster_keys": COUNT}, "cluskeys": {"cluster_keys": COUNT},
    "cprops": {"centers": VEC, "centers_of_mass": VEC, "gyrations": TENS, "inertia_tensors": TENS, "sizes": COUNT, "cluster_masses": SAME, "radii_of_gyration": SAME},
    "pmftr12": {"bin_counts": COUNT, "pmft": SAME}, "pmftxyt": {"bin_counts": COUNT, "pmft": SAME}, "pmftxy": {"bin_counts": COUNT, "pmft": SAME},
    "pmftxyz": {"bin_counts": COUNT, "pmft": SAME},
    "lbod": {"bin_counts": COUNT, "bond_order": SAME}, "oocd": {"bin_counts": COUNT, "bond_order": SAME},
    "angsep": {"angles": SAME}, "angglob": {"angles": SAME}, "proj": {"projections": SAME, "normed_projections": SAME},
    "hex": {"particle_order": PHASE}, "hexw": {"particle_order": PHASE}, "rotauto": {"order": SAME, "particle_order": SAME},
    "debye": {"S_k": SAME}, "direct": {"S_k": SAME},
    "diffr": {"diffraction": SAME, "k_values": SAME, "k_vectors": VEC},
    "sann": {}, "rad": {}, "interface": {"point_ids": COUNT, "query_point_ids": COUNT, "point_count": COUNT, "query_point_count": COUNT},
    "gauss": {"density": GRID}, "voxel": {"voxels": GRID},
    "buffer": {"buffer_points": SET}, "bufimg": {"buffer_points": SET},
    "displaced": {"msd": SAME, "particle_msd": SAME}, "window": {"msd": SAME, "particle_msd": SAME},
    "ball_aabb": {}, "ball_link": {}, "ball_cell": {}, "ball_raw": {}, "near_aabb": {}, "near_link": {}, "near_raw": {}, "all_pairs": {}, "filtered": {},
    "wrap": {"out": VEC}, "unwrap": {"out": VEC}, "images": {"out": INT}, "fractional": {"out": FRAC}, "absolute": {"out": VEC}, "contains": {"out": COUNT},
    "distances": {"out": SAME}, "alldist": {"out": SAME}, "center": {"out": VEC}, "com": {"out": VEC},
}
TURNED = {"diffr", "pmftr12", "pmftxyt", "pmftxy", "pmftxyz", "lbod", "oocd", "angsep", "angglob", "proj", "rotauto"}    # no mirror images of orientations
OPEN = {"cprops", "gauss", "voxel", "displaced", "window", "wrap", "unwrap", "images", "distances", "alldist", "center", "com", "contains", "fractional"}


def entries(freud):
    C = zoo.catalog()
    C.update(zoo.nl_entries())
    D, B = freud.density, freud.locality.PeriodicBuffer
    g = lambda s: tuple(int(x) for x in np.array([5, 6, 8])[:s.cell.dim][s.perm[:s.cell.dim]])  # noqa
    C["gauss"] = zoo.Entry("gauss", lambda s: D.GaussianDensity(g(s), 0.8 * s.r, 0.4 * s.r), lambda o, s, y, a: o.compute(y, s.values.astype(np.float32)),
                           ["density"], nbr=False, query=False)
    C["voxel"] = zoo.Entry("voxel", lambda s: D.SphereVoxelization(g(s), 0.7 * s.r), lambda o, s, y, a: o.compute(y), ["voxels"], nbr=False, query=False)
    C["diffr"] = zoo.Entry("diffr", lambda s: freud.diffraction.DiffractionPattern(24, 20), lambda o, s, y, a: o.compute(y, view_orientation=s.view),
                           ["diffraction", "k_values", "k_vectors"], nbr=False, query=False, dims="3")
    C["direct"] = zoo.Entry("direct", lambda s: freud.diffraction.StaticStructureFactorDirect(5, 4.0, num_sampled_k_points=0),
                            lambda o, s, y, a: o.compute(y, **s.qp(), **({} if s.q is None else {"N_total": s.n + s.m})), ["S_k"], nbr=False, dims="3")
    C["buffer"] = zoo.Entry("buffer", lambda s: B(), lambda o, s, y, a: o.compute(y, s.vary([1.0, 0.4, 1.6]), include_input_points=True),
                            ["buffer_points", "buffer_ids", "buffer_box"], nbr=False, query=False)
    C["bufimg"] = zoo.Entry("bufimg", lambda s: B(), lambda o, s, y, a: o.compute(y, s.vary([2, 0, 2]), images=True),
                            ["buffer_points", "buffer_ids", "buffer_box"], nbr=False, query=False)
    traj = lambda s: s.box.wrap(s.turn(s.path.reshape(-1, 3)).astype(np.float32)).reshape(s.path.shape)  # noqa
    imgs = lambda s: s.box.get_images(s.turn(s.path.reshape(-1, 3)).astype(np.float32)).reshape(s.path.shape)  # noqa
    for name, mode in (("displaced", "direct"), ("window", "window")):
        C[name] = zoo.Entry(name, lambda s, mode=mode: freud.msd.MSD(s.box, mode), lambda o, s, y, a: o.compute(traj(s), imgs(s)), ["msd", "particle_msd"],
                            nbr=False, query=False)

    class Arr(zoo.Entry):
        def read(self, o):
            return {"out": np.array(o["out"])}

    def arr(name, f):
        C[name] = Arr(name, lambda s: {}, lambda o, s, y, a: o.__setitem__("out", f(s)), [], nbr=False)
    far = lambda s: s.turn(s.far).astype(np.float32)  # noqa
    arr("wrap", lambda s: s.box.wrap(far(s)))
    arr("unwrap", lambda s: s.box.unwrap(s.p, s.turn(np.arange(3 * s.n).reshape(-1, 3) % 5 - 2 if not s.cell.is2d else (np.arange(3 * s.n).reshape(-1, 3) % 5 - 2) * [1, 1, 0])))
    arr("images", lambda s: s.box.get_images(far(s)))
    arr("fractional", lambda s: s.box.make_fractional(far(s)))
    arr("absolute", lambda s: s.box.make_absolute((s.turn(s.far * 0.1) + 0.5) * ([1, 1, 0] if s.cell.is2d else [1, 1, 1])))
    arr("contains", lambda s: s.box.contains(far(s) * np.float32(0.3)))
    arr("distances", lambda s: s.box.compute_distances(s.p, s.p[::-1].copy()))
    arr("alldist", lambda s: s.box.compute_all_distances(s.p, s.p[:3] if s.q is None else s.q))
    arr("center", lambda s: s.box.center(s.p))
    arr("com", lambda s: s.box.center_of_mass(s.p, s.masses))
    for e in C.values():
        if e.name in ("wrap", "unwrap", "images", "fractional", "absolute", "contains", "distances", "alldist", "center", "com"):
            e.query = False
    return C


def setup(ctx):
    global freud, C
    import freud
    C = entries(freud)


def cases(tier):
    th = tier == "thorough"
    for name in sorted(C):
        if name not in RULES or name == "direct" and not hasattr(freud._diffraction, "StaticStructureFactorDirect"):
            continue
        for d in C[name].dims:
            for k in range(len(CELLS[d]) if name != "diffr" else 1):
                for q in (False, True):
                    if q and not C[name].query:
                        continue
                    for seed in range(3 if th else 1):
                        for nbr in ("ball", "near") if C[name].nbr else ("",):
                            yield {"e": name, "d": d, "k": k, "q": q, "seed": seed, "nbr": nbr}


turn_view = np.array([0.8, 0.2, -0.5, 0.26])
turn_view /= np.linalg.norm(turn_view)


class Turned(zoo.System):
    """A system with its axes exchanged and mirrored."""

    def __init__(self, spec, case, perm, sign, per, M):
        cell = ref.Cell(spec)
        dim = cell.dim
        seed = case["seed"]
        n = 30
        p, q = ref.generic(cell, n, 11 + seed), ref.generic(cell, 12, 21 + seed) if case["q"] else None
        new = [spec[k] if k < 3 else 0 for k in perm]
        new += [spec[3] * sign[0] * sign[1], spec[4] * sign[0] * sign[2], spec[5] * sign[1] * sign[2]]
        self.perm, self.M = np.array(perm), M
        zoo.System.__init__(self, tuple(new), self.turn(p).astype(np.float32), None if q is None else self.turn(q).astype(np.float32), seed=seed)
        if not all(per[:dim]):
            self.box.periodic = [per[k] for k in perm]
        R = turn_quat(M if np.linalg.det(M) > 0 else np.eye(3))
        one = self.quats
        self.quats = mul(R, self.quats)
        self.qquats = self.quats if q is None else mul(R, self.qquats)
        phi = np.arctan2(M[1, 0], M[0, 0]) if dim == 2 else 0
        self.angles = (self.angles + phi).astype(np.float32)
        self.qangles = self.angles if q is None else (self.qangles + phi).astype(np.float32)
        self.view = mul(turn_view, R * [1, -1, -1, -1])[0]
        rs = np.random.RandomState(900 + seed)
        flat = [1, 1, 0 if dim == 2 else 1]
        self.far = (p * 3 + rs.randn(n, 3) * flat).astype(np.float32)
        self.path = p[None] + np.cumsum(rs.randn(5, n, 3) * flat * 0.8, axis=0)

    def turn(self, x):
        return np.asarray(x, float) @ self.M.T

    def vary(self, x):
        """Something given for each direction."""
        x = [x[k] for k in self.perm]
        return x if not self.cell.is2d else [x[0], x[1], 0]


def mul(a, b):
    a = np.asarray(a, float)
    b = np.atleast_2d(np.asarray(b, float))
    s, v, t, w = a[0], a[1:], b[:, 0], b[:, 1:]
    return np.c_[s * t - w @ v, s * w + t[:, None] * v + np.cross(v[None], w)].astype(np.float32)


def turn_quat(M):
    """The quaternion of a rotation that exchanges and reverses axes."""
    best = None
    for q in itertools.product((-1, 0, 1), repeat=4):
        k = np.linalg.norm(q)
        if k == 0:
            continue
        w, x, y, z = np.array(q) / k
        R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                      [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
        if np.abs(R - M).max() < 1e-9:
            best = np.array(q) / k
            break
    assert best is not None
    return best


def operations(spec):
    dim = 2 if spec[2] == 0 else 3
    perms = [tuple(range(dim))] if any(spec[3:]) else list(itertools.permutations(range(dim)))
    for perm in perms:
        for sign in itertools.product((1, -1), repeat=dim):
            p, s = perm + (2,) * (3 - dim), sign + (1,) * (3 - dim)
            M = np.zeros((3, 3))
            for a in range(3):
                M[a, p[a]] = s[a]
            yield p, s, M


def check(case, ctx):
    e = C[case["e"]]
    spec = CELLS[case["d"]][case["k"]] if e.name != "diffr" else (8, 8, 8, 0, 0, 0)
    dim = int(case["d"])
    pers = list(itertools.product((True, False), repeat=dim)) if e.name in OPEN else [(True,) * dim]
    for per in pers:
        per = tuple(per) + (False,) * (3 - dim)
        base = None
        for perm, sign, M in operations(spec):
            # in 2D, reversing both of the axes' plane keeps z: a mirror image if the determinant is negative
            if e.name in TURNED and np.linalg.det(M) < 0:
                continue
            s = Turned(spec, case, perm, sign, per, M)
            o = e.make(s)
            e.run(o, s, nbr=case["nbr"] or None)
            got = e.read(o)
            ctx.step()
            if base is None:
                one, base = s, got
                continue

            def say(msg):
                ctx.fail("%s in %s%s%s, axes %s, signs %s: %s" % (e.name, spec, " with query points" if case["q"] else "",
                                                                  "" if all(per[:dim]) else " periodic %s" % (per,), perm[:dim], sign[:dim], msg))
            compare(e, one, base, s, got, M, say)
            ctx.state()
    ctx.traces += 1


def compare(e, one, base, s, got, M, say):
    scale = float(max(s.cell.L))

    def same(k, a, b, tol):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            say("%s has shape %s, expected %s" % (k, a.shape, b.shape))
        with np.errstate(invalid="ignore"):
            ok = (np.abs(a - b) <= tol * (1 + np.abs(b))) | ((a != a) & (b != b)) | (a == b)
        if not ok.all():
            w = tuple(int(x) for x in np.argwhere(~ok)[0])
            say("%s[%s] is %s, expected %s (%d of %d differ)" % (k, ", ".join(map(str, w)), a[w], b[w], (~ok).sum(), ok.size))
    for k in base:
        if not (k == "i" or k.endswith(".i")):
            continue
        nl = k[:-1]
        a, b = [np.lexsort((r[nl + "j"], r[nl + "i"])) for r in (base, got)]
        same("query_point_indices", got[nl + "i"][b].astype(int), base[nl + "i"][a].astype(int), 0)
        same("point_indices", got[nl + "j"][b].astype(int), base[nl + "j"][a].astype(int), 0)
        same("vectors", got[nl + "v"][b], base[nl + "v"][a] @ M.T, 1e-5 * scale)
        same("distances", got[nl + "d"][b], base[nl + "d"][a], 1e-5 * scale)
        same("weights", got[nl + "w"][b], base[nl + "w"][a], 1e-5)
    bonds = [k[:-1] for k in base if k.endswith("nlist.i")]
    for k, rule in RULES[e.name].items():
        x, y = np.asarray(base[k]), np.asarray(got[k])
        if rule == COUNT:
            same(k, y.astype(np.int64), x.astype(np.int64), 0)
        elif rule == SAME:
            if bonds and x.shape[:1] == base[bonds[0] + "i"].shape:
                a, b = [np.lexsort((r[bonds[0] + "j"], r[bonds[0] + "i"])) for r in (base, got)]
                x, y = x[a], y[b]
            same(k, y, x, 3e-3 if "ang" in e.name else 3e-4)
        elif rule == VEC:
            d = y - x @ M.T
            if k in ("centers", "centers_of_mass") or e.name in ("center", "com"):
                d = nearest(s, d)
            same(k, d, np.zeros_like(d), 1e-5 * scale)
        elif rule == TENS:
            same(k, y, np.einsum("ab,kbc,dc->kad", M, x, M), 1e-5 * scale ** 2)
        elif rule == INT:
            same(k, y, np.round(x @ M.T), 0)
        elif rule == FRAC:
            h = np.array([0.5, 0.5, 0 if s.cell.is2d else 0.5])
            same(k, y, (x - h) @ M.T + h, 1e-5)
        elif rule == GRID:
            # the value at a cell of the turned grid is that of the cell it came from
            n = x.ndim
            z = np.transpose(x, s.perm[:n])
            for a in range(n):
                if M[a].sum() < 0:
                    z = np.flip(z, a)
            same(k, y, z, 1e-4)
        elif rule == PHASE:
            m = 6 if e.name == "hex" else 4
            z = x if np.linalg.det(M) > 0 else np.conj(x)
            # the rotation that is left after mirroring the y axis, if any
            phi = np.arctan2(M[1, 0], M[0, 0])
            same(k, y, z * np.exp(1j * m * phi), 1e-3)
        elif rule == SET:
            a = np.c_[base["buffer_ids"], np.round(x @ M.T, 3)]
            b = np.c_[got["buffer_ids"], np.round(y, 3)]
            if a.shape != b.shape:
                say("%d buffer points, expected %d" % (len(b), len(a)))
            if len(a):
                from scipy.spatial import cKDTree
                A, B = np.c_[base["buffer_ids"] * 10.0 * scale, x @ M.T], np.c_[got["buffer_ids"] * 10.0 * scale, y]
                d, idx = cKDTree(A).query(B)
                if d.max() > 1e-3 or len(set(idx.tolist())) != len(A):
                    say("buffer points differ: %s of point %d is none of those expected" % (y[d.argmax()], got["buffer_ids"][d.argmax()]))
            u, v = base["buffer_box"], got["buffer_box"]
            same("buffer_box", np.asarray(v[:3], float), np.abs(np.asarray(u[:3], float) @ M.T), 1e-5)
            sg = M.sum(1)
            same("buffer_box tilts", np.asarray(v[3:], float), np.asarray(u[3:], float) * [sg[0] * sg[1], sg[0] * sg[2], sg[1] * sg[2]], 1e-5)


def nearest(s, d):
    """Centers are the same up to the box."""
    out = np.array(d, float).reshape(-1, 3)
    f = np.round(out @ s.cell.hinv.T)
    f[:, ~np.array(s.box.periodic)[:3]] = 0
    return out - f @ s.cell.h.T
