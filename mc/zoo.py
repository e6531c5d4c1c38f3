"""Every computation of the library, in one shape, for the checks that quantify over all of them.

An entry names the computation, the dimensions it works in, how to make the object, how to run it on
a System, and how to read every result.  read() copies; views() hands out what the library returns.
"""
import numpy as np

from mc import ref


def quats(n, seed):
    q = np.random.RandomState(300 + seed).randn(n, 4)
    return np.ascontiguousarray((q / np.linalg.norm(q, axis=1)[:, None]).astype(np.float32))


def zquats(a):
    """Rotations about z by the angles a."""
    q = np.zeros((len(a), 4), np.float32)
    q[:, 0] = np.cos(np.asarray(a) / 2)
    q[:, 3] = np.sin(np.asarray(a) / 2)
    return q


EQUIV = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [np.sqrt(.5), 0, 0, np.sqrt(.5)],
                  [np.sqrt(.5), 0, 0, -np.sqrt(.5)]], np.float32)


class System:
    """Points in a box with everything a computation may want to know about them."""

    def __init__(self, box, p, q=None, r=None, form="tuple", seed=0, neighbors=None):
        self.cell = c = ref.Cell(box)
        self.boxname = box
        self.p = ref.points(c, p) if isinstance(p, str) else p
        self.q = ref.points(c, q) if isinstance(q, str) else q
        self.n = n = len(self.p)
        self.m = m = n if self.q is None else len(self.q)
        self.half = float(c.planes.min()) / 2
        self.r = 0.9 * self.half if r is None else r
        self.form = form
        self.neighbors = neighbors
        rs = np.random.RandomState(70 + seed)
        self.angles = (rs.rand(n) * 2 * np.pi).astype(np.float32)
        self.qangles = (rs.rand(m) * 2 * np.pi).astype(np.float32) if q is not None else self.angles
        self.quats = quats(n, seed)
        self.qquats = quats(m, seed + 1) if q is not None else self.quats
        self.values = rs.rand(n) + 0.5
        self.qvalues = rs.rand(m) - 0.3 if q is not None else self.values
        self.keys = rs.randint(0, 50, n).astype(np.uint32)
        self.labels = (np.arange(n) % 3).astype(np.uint32)
        self.masses = (rs.rand(n) + 0.5).astype(np.float32)
        self.proj = np.array([[1, 0, 0], [0, 1, 0], [1, 1, 1]], np.float32)
        self.box = c.freud()

    def system(self, freud, form=None):
        f = form or self.form
        if f == "tuple":
            return (self.box, self.p)
        if f == "aabb":
            return freud.locality.AABBQuery(self.box, self.p)
        if f == "link":
            return freud.locality.LinkCell(self.box, self.p, cell_width=self.half * 0.6)
        if f == "cell":
            return freud.locality.CellQuery(self.box, self.p)
        if f == "raw":
            return freud.locality.NeighborQuery.from_system((self.box, self.p))
        raise ValueError(f)

    def nbr(self, mode=None):
        """Neighbor argument: of this mode, or the system's."""
        m = mode or self.neighbors or "ball"
        if not isinstance(m, str):
            return m
        if m == "lumpy":
            return self.lumpy()
        return {"ball": {"r_max": self.r, "exclude_ii": self.q is None},
                "near": {"num_neighbors": 4, "exclude_ii": self.q is None}}[m]

    def lumpy(self):
        """A list with very different numbers of neighbors, one per point on average."""
        k = np.tile([3, 1, 0, 0], self.m // 4 + 1)[:self.m]
        k[-1] += max(0, self.m - k.sum())
        i = np.repeat(np.arange(self.m), k)
        j = (i + 1 + np.concatenate([np.arange(x) for x in k])) % self.n
        if self.q is None:
            j = np.where(i == j, (j + 1) % self.n, j)
        q = self.p if self.q is None else self.q
        d = self.box.wrap(self.p[j] - q[i])
        return freud.locality.NeighborList.from_arrays(self.m, self.n, i, j, d)

    def qp(self):
        return {} if self.q is None else {"query_points": self.q}


class Entry:
    dims = "23"
    acc = False            # reset=False accumulates
    nbr = True             # takes neighbors
    query = True           # takes query_points
    inexact = ()           # results computed in floating point over several points
    gated = ()             # results that need compute
    per = ()               # results with one row per (query) point
    bond = ()              # results with one row per bond
    random = False         # registration draws random vectors
    ordered = True         # results do not depend on the order of points

    def __init__(self, name, make, run, reads, **kw):
        self.name, self.make, self._run, self.reads = name, make, run, reads
        for k, v in kw.items():
            setattr(self, k, v)

    def run(self, obj, s, nbr=None, form=None, reset=None):
        kw = {} if reset is None else {"reset": reset}
        if self.nbr:
            kw["neighbors"] = s.nbr(nbr)
        return self._run(obj, s, s.system(freud, form), kw)

    def views(self, obj):
        return {k: getattr(obj, k) if isinstance(k, str) else k(obj) for k in self.reads}

    def read(self, obj):
        out = {}
        for k in self.reads:
            v = getattr(obj, k)
            if k == "nlist" or k.endswith("_nlist"):
                i, j, vec, d, w = ref.nlist_arrays(v)
                out.update({k + ".i": i, k + ".j": j, k + ".v": vec, k + ".d": d, k + ".w": w})
            elif k == "cluster_keys":
                out[k] = np.array([x for c in v for x in list(c) + [-1]])
            elif isinstance(v, (list, tuple)) and len(v) and isinstance(v[0], np.ndarray):
                for t, x in enumerate(v):
                    out["%s[%d]" % (k, t)] = np.array(x)
            elif k == "box":
                out[k] = np.array([v.Lx, v.Ly, v.Lz, v.xy, v.xz, v.yz])
            elif k == "buffer_box":
                out[k] = np.array([v.Lx, v.Ly, v.Lz, v.xy, v.xz, v.yz])
            else:
                out[k] = np.array(v)
        return out


freud = None
HIST = ["bin_counts"]


def catalog():
    """[Entry]"""
    global freud
    import freud as _f
    freud = _f
    D, O, P, E, C = freud.density, freud.order, freud.pmft, freud.environment, freud.cluster
    R = {}

    def add(name, *a, **k):
        R[name] = Entry(name, *a, **k)

    for mode in ("exact", "finite_size"):
        add("rdf" + ("_fs" if mode != "exact" else ""),
            lambda s, mode=mode: D.RDF(9, s.r, normalization_mode=mode),
            lambda o, s, y, k: o.compute(y, **s.qp(), **k), ["bin_counts", "rdf", "n_r"], acc=True,
            inexact=("rdf", "n_r"))
    add("rdf_min", lambda s: D.RDF(7, s.r, r_min=0.3 * s.r),
        lambda o, s, y, k: o.compute(y, **s.qp(), **k), ["bin_counts", "rdf", "n_r"], acc=True,
        inexact=("rdf", "n_r"))
    add("corr", lambda s: D.CorrelationFunction(8, s.r),
        lambda o, s, y, k: o.compute(y, s.values, **s.qp(), **(
            {} if s.q is None else {"query_values": s.qvalues}), **k),
        ["bin_counts", "correlation"], acc=True, inexact=("correlation",))
    add("corrc", lambda s: D.CorrelationFunction(5, s.r),
        lambda o, s, y, k: o.compute(y, s.values * (1 + 2j), **s.qp(), **(
            {} if s.q is None else {"query_values": s.qvalues * (0.5 - 1j)}), **k),
        ["bin_counts", "correlation"], acc=True, inexact=("correlation",))
    add("gauss3", lambda s: D.GaussianDensity((5, 6, 7), 0.6 * s.r, 0.4 * s.r),
        lambda o, s, y, k: o.compute(y, s.values.astype(np.float32)), ["density"], dims="3",
        nbr=False, query=False, inexact=("density",))
    add("gauss2", lambda s: D.GaussianDensity((6, 7), 0.6 * s.r, 0.4 * s.r),
        lambda o, s, y, k: o.compute(y), ["density"], dims="2", nbr=False, query=False,
        inexact=("density",))
    add("voxel3", lambda s: D.SphereVoxelization((5, 6, 7), 0.5 * s.r),
        lambda o, s, y, k: o.compute(y), ["voxels"], dims="3", nbr=False, query=False)
    add("voxel2", lambda s: D.SphereVoxelization((7, 8), 0.5 * s.r),
        lambda o, s, y, k: o.compute(y), ["voxels"], dims="2", nbr=False, query=False)
    add("locden", lambda s: D.LocalDensity(0.8 * s.r, 0.3 * s.r),
        lambda o, s, y, k: o.compute(y, **s.qp(), **k), ["density", "num_neighbors"],
        inexact=("density", "num_neighbors"))
    add("cluster", lambda s: C.Cluster(), lambda o, s, y, k: o.compute(y, **k),
        ["num_clusters", "cluster_idx", "cluster_keys"], query=False)
    add("cluskeys", lambda s: C.Cluster(), lambda o, s, y, k: o.compute(y, keys=s.keys, **k),
        ["num_clusters", "cluster_idx", "cluster_keys"], query=False)
    add("cprops", lambda s: C.ClusterProperties(),
        lambda o, s, y, k: o.compute(y, s.labels, s.masses),
        ["centers", "centers_of_mass", "gyrations", "inertia_tensors", "sizes", "cluster_masses",
         "radii_of_gyration"], nbr=False, query=False,
        inexact=("centers", "centers_of_mass", "gyrations", "inertia_tensors", "cluster_masses",
                 "radii_of_gyration"))
    add("pmftr12", lambda s: P.PMFTR12(s.r, (3, 4, 5)),
        lambda o, s, y, k: o.compute(y, s.angles, **s.qp(), query_orientations=s.qangles, **k),
        ["bin_counts", "pmft"], dims="2", acc=True, inexact=("pmft",))
    add("pmftxyt", lambda s: P.PMFTXYT(0.7 * s.r, 0.6 * s.r, (3, 4, 5)),
        lambda o, s, y, k: o.compute(y, s.angles, **s.qp(), query_orientations=s.qangles, **k),
        ["bin_counts", "pmft"], dims="2", acc=True, inexact=("pmft",))
    add("pmftxy", lambda s: P.PMFTXY(0.7 * s.r, 0.6 * s.r, (6, 5)),
        lambda o, s, y, k: o.compute(y, s.qangles, **s.qp(), **k),
        ["bin_counts", "pmft"], dims="2", acc=True, inexact=("pmft",))
    add("pmftxyz", lambda s: P.PMFTXYZ(0.6 * s.r, 0.5 * s.r, 0.4 * s.r, (4, 3, 5)),
        lambda o, s, y, k: o.compute(y, s.qquats, **s.qp(), equiv_orientations=EQUIV[:2], **k),
        ["bin_counts", "pmft"], dims="3", acc=True, inexact=("pmft",))
    for mode in ("bod", "lbod", "obcd", "oocd"):
        add(mode, lambda s, mode=mode: E.BondOrder((5, 4), mode),
            lambda o, s, y, k: o.compute(y, s.quats, **s.qp(), query_orientations=s.qquats, **k),
            ["bin_counts", "bond_order"], acc=True, inexact=("bond_order",))
    add("angsep", lambda s: E.AngularSeparationNeighbor(),
        lambda o, s, y, k: o.compute(y, s.quats, **s.qp(), query_orientations=s.qquats,
                                     equiv_orientations=EQUIV, **k),
        ["angles", "nlist"])
    add("angglob", lambda s: E.AngularSeparationGlobal(),
        lambda o, s, y, k: o.compute(s.qquats[:3], s.quats, EQUIV), ["angles"], nbr=False,
        query=False)
    add("proj", lambda s: E.LocalBondProjection(),
        lambda o, s, y, k: o.compute(y, s.quats, s.proj, **s.qp(), equiv_orientations=EQUIV, **k),
        ["projections", "normed_projections", "nlist"])
    add("hex", lambda s: O.Hexatic(6), lambda o, s, y, k: o.compute(y, **k),
        ["particle_order"], query=False, dims="2", inexact=("particle_order",))
    add("hexw", lambda s: O.Hexatic(4, weighted=True), lambda o, s, y, k: o.compute(y, **k),
        ["particle_order"], query=False, dims="2", inexact=("particle_order",))
    add("rotauto", lambda s: O.RotationalAutocorrelation(6),
        lambda o, s, y, k: o.compute(s.quats[::-1].copy(), s.quats), ["order", "particle_order"],
        nbr=False, query=False, inexact=("order",))
    add("cubatic", lambda s: O.Cubatic(3, 0.5, 0.5, n_replicates=4, seed=11),
        lambda o, s, y, k: o.compute(s.quats[:4].copy()),
        ["order", "orientation", "particle_order", "global_tensor", "cubatic_tensor"], nbr=False,
        query=False, inexact=("order", "orientation", "particle_order", "global_tensor",
                              "cubatic_tensor"))
    add("debye", lambda s: freud.diffraction.StaticStructureFactorDebye(6, 9.0),
        lambda o, s, y, k: o.compute(y, **s.qp(), **(
            {} if s.q is None else {"N_total": s.n + s.m}), **k), ["S_k"], nbr=False, acc=True,
        inexact=("S_k",))
    add("diffr", lambda s: freud.diffraction.DiffractionPattern(24, 20),
        lambda o, s, y, k: o.compute(y, view_orientation=s.quats[0], **k),
        ["diffraction", "k_values", "k_vectors"], nbr=False, query=False, acc=True, dims="3",
        inexact=("diffraction", "k_values", "k_vectors"))
    add("buffer", lambda s: freud.locality.PeriodicBuffer(),
        lambda o, s, y, k: o.compute(y, 0.4 * s.half, include_input_points=True),
        ["buffer_points", "buffer_ids", "buffer_box"], nbr=False, query=False)
    add("bufimg", lambda s: freud.locality.PeriodicBuffer(),
        lambda o, s, y, k: o.compute(y, [2, 1, 1], images=True),
        ["buffer_points", "buffer_ids", "buffer_box"], nbr=False, query=False)
    add("sann", lambda s: freud.locality.FilterSANN(allow_incomplete_shell=True),
        lambda o, s, y, k: o.compute(y, **s.qp(), **k), ["filtered_nlist"])
    add("rad", lambda s: freud.locality.FilterRAD(allow_incomplete_shell=True),
        lambda o, s, y, k: o.compute(y, **s.qp(), **k), ["filtered_nlist"])
    add("interface", lambda s: freud.interface.Interface(),
        lambda o, s, y, k: o.compute(y, s.q if s.q is not None else s.p, **k),
        ["point_count", "point_ids", "query_point_count", "query_point_ids"])
    add("msd", lambda s: freud.msd.MSD(s.box),
        lambda o, s, y, k: o.compute(
            np.stack([s.p, s.p[::-1], s.p]),
            np.stack([np.zeros_like(s.p, int)] * 2 + [np.ones_like(s.p, int) * [1, 1, 0]]), **k),
        ["msd", "particle_msd"], nbr=False, query=False, acc=True, inexact=("msd", "particle_msd"))
    return R


def nl_entries():
    """Neighbour lists and box operations, as entries of the catalogue."""
    global freud
    import freud as _f
    freud = _f
    L = freud.locality
    out = {}

    class NL(Entry):
        def read(self, o):
            nl = o["nl"]
            i, j, v, d, w = ref.nlist_arrays(nl)
            return {"i": i, "j": j, "v": v, "d": d, "w": w, "counts": np.array(nl.neighbor_counts),
                    "segments": np.array(nl.segments)}

    def nl(name, f, **k):
        out[name] = NL(name, lambda s: {}, lambda o, s, y, kw: o.__setitem__("nl", f(s)), [],
                       nbr=False, **k)

    def q(s, form, args, bydist=False):
        sy = s.system(freud, form)
        if isinstance(sy, tuple):
            sy = L.AABBQuery(*sy)
        qp = s.p if s.q is None else s.q
        return sy.query(qp, args).toNeighborList(sort_by_distance=bydist)

    for form in ("aabb", "link", "cell", "raw"):
        nl("ball_" + form, lambda s, form=form: q(s, form, s.nbr("ball")))
        nl("balld_" + form, lambda s, form=form: q(s, form, s.nbr("ball"), True))
        if form != "cell":
            nl("near_" + form, lambda s, form=form: q(s, form, s.nbr("near")))
            nl("neard_" + form, lambda s, form=form: q(s, form, s.nbr("near"), True))
    nl("all_pairs", lambda s: L.NeighborList.all_pairs((s.box, s.p), s.q, s.q is None))

    def filt(s):
        x = q(s, "aabb", s.nbr("ball"))
        x.neighbor_counts
        x.filter(np.arange(len(x)) % 3 != 0)
        x.filter_r(0.9 * s.r, 0.1 * s.r)
        x.sort(by_distance=True)
        return x
    nl("filtered", filt)

    class Arr(Entry):
        def read(self, o):
            return {"out": np.array(o["out"])}

    def arr(name, f):
        out[name] = Arr(name, lambda s: {}, lambda o, s, y, kw: o.__setitem__("out", f(s)), [],
                        nbr=False)

    far = lambda s: (s.p * 3 + (s.cell.L if not s.cell.is2d else s.cell.L * [1, 1, 0])).astype(  # noqa
        np.float32)
    arr("wrap", lambda s: s.box.wrap(far(s)))
    arr("wrap_out", lambda s: (lambda x: s.box.wrap(x, out=x))(far(s)))
    arr("unwrap", lambda s: s.box.unwrap(s.p, np.arange(3 * s.n).reshape(-1, 3) % 5 - 2))
    arr("images", lambda s: s.box.get_images(far(s)))
    arr("fractional", lambda s: s.box.make_fractional(far(s)))
    arr("absolute", lambda s: s.box.make_absolute(far(s)))
    arr("contains", lambda s: s.box.contains(far(s) * 0.3))
    arr("distances", lambda s: s.box.compute_distances(s.p, s.p[::-1].copy()))
    arr("alldist", lambda s: s.box.compute_all_distances(s.p, s.p[:3] if s.q is None else s.q))
    arr("center", lambda s: s.box.center(s.p))
    arr("com", lambda s: s.box.center_of_mass(s.p, s.masses))
    return out


MOTIF = quats(4, 77)[:, :3]


def full_catalog():
    """Entries of the classes that only the build with stand-ins has."""
    global freud
    import freud as _f
    freud = _f
    O, E = freud.order, freud.environment
    R = {}

    def add(name, *a, **k):
        R[name] = Entry(name, *a, **k)

    st = ["order", "particle_order", "ql", "particle_harmonics"]
    for name, kw in (("stein", dict(l=6)), ("steinavg", dict(l=4, average=True)), ("steinw", dict(l=[2, 6], wl=True, wl_normalize=True)),
                     ("steinwt", dict(l=[3, 4], weighted=True, average=True, wl=True))):
        add(name, lambda s, kw=kw: O.Steinhardt(**kw), lambda o, s, y, k: o.compute(y, **k), st, query=False,
            inexact=tuple(st), per=("particle_order", "ql", "particle_harmonics"))
    for n in (True, False):
        add("solliq%d" % n, lambda s, n=n: O.SolidLiquid(6, 0.4 if n else 0.05, 2, normalize_q=n), lambda o, s, y, k: o.compute(y, **k),
            ["cluster_idx", "ql_ij", "particle_harmonics", "cluster_sizes", "largest_cluster_size", "nlist", "num_connections"],
            query=False, inexact=("ql_ij", "particle_harmonics"), per=("particle_harmonics", "num_connections"), bond=("ql_ij",))

    class Nem(Entry):
        def read(self, o):
            out = Entry.read(self, o)
            d = out["director"]              # defined up to its sign
            out["director"] = d * np.sign(d[np.argmax(np.abs(d))] or 1)
            return out
    R["nematic"] = Nem("nematic", lambda s: O.Nematic(), lambda o, s, y, k: o.compute(s.quats[:, 1:] if isinstance(s.quats, np.ndarray) else [x[1:] for x in s.quats]),
                       ["order", "director", "particle_tensor", "nematic_tensor"], nbr=False, query=False,
                       inexact=("order", "director", "nematic_tensor"), per=("particle_tensor",))
    for mode in ("global", "particle_local", "neighborhood"):
        add("ld" + mode[:4], lambda s, mode=mode: E.LocalDescriptors(3, negative_m=mode != "neighborhood", mode=mode),
            lambda o, s, y, k, mode=mode: o.compute(y, **s.qp(), **({"orientations": s.qquats} if mode == "particle_local" else {}), **k),
            ["sph", "num_sphs", "nlist"], bond=("sph",), ordered=mode != "neighborhood")

    def near(k, n):
        return {"env_neighbors": k["neighbors"]}
    for reg in (False, True):
        add("envclu%d" % reg, lambda s: E.EnvironmentCluster(),
            lambda o, s, y, k, reg=reg: o.compute(y, 0.35 * s.r, cluster_neighbors=k["neighbors"], env_neighbors=k["neighbors"], registration=reg),
            ["cluster_idx", "num_clusters", "point_environments", "cluster_environments"], query=False, ordered=False, random=reg)
        add("motif%d" % reg, lambda s: E.EnvironmentMotifMatch(),
            lambda o, s, y, k, reg=reg: o.compute(y, 0.6 * s.r * MOTIF * ([1, 1, 0] if s.cell.is2d else 1), 0.5 * s.r,
                                                  env_neighbors=k["neighbors"], registration=reg),
            ["matches", "point_environments"], query=False, ordered=False, random=reg)
        add("rmsd%d" % reg, lambda s: E._EnvironmentRMSDMinimizer(),
            lambda o, s, y, k, reg=reg: o.compute(y, 0.6 * s.r * MOTIF * ([1, 1, 0] if s.cell.is2d else 1),
                                                  neighbors=k["neighbors"], registration=reg),
            ["rmsds", "point_environments"], query=False, ordered=False, random=reg)
    class Vor(Entry):
        def read(self, o):
            out = Entry.read(self, o)
            k = np.lexsort((*np.round(out["nlist.v"], 2).T, out["nlist.j"], out["nlist.i"]))
            for x in "ijvdw":                # bonds to two images of a point come in either order
                out["nlist." + x] = out["nlist." + x][k]
            return out
    R["voronoi"] = Vor("voronoi", lambda s: freud.locality.Voronoi(), lambda o, s, y, k: o.compute(y), ["polytopes", "volumes", "nlist"],
        nbr=False, query=False, per=("volumes",))
    add("contcoord", lambda s: O.ContinuousCoordination([2.5, 4], True, True), lambda o, s, y, k: o.compute(y), ["coordination", "particle_order"],
        nbr=False, query=False, per=("coordination", "particle_order"))
    class Direct(Entry):
        def read(self, o):
            out = Entry.read(self, o)
            k = out["k_points"]              # their order is open
            out["k_points"] = k[np.lexsort(np.round(k, 3).T)]
            return out
    R["ssfdirect"] = Direct("ssfdirect", lambda s: freud.diffraction.StaticStructureFactorDirect(6, 2.5, 0.2),
        lambda o, s, y, k: o.compute(y, **s.qp(), **({} if s.q is None else {"N_total": s.n + s.m}), **k), ["S_k", "k_points"],
        nbr=False, acc=True, inexact=("S_k",))
    return R


def suits(e, s):
    if ("2" if s.cell.is2d else "3") not in e.dims:
        return False
    if e.name == "diffr" and (len(set(s.cell.spec[:3])) != 1 or any(s.cell.spec[3:])):
        return False
    return s.q is None or e.query


def differ(a, b, exact=False, rtol=2e-4):
    """None, or how the results a and b of one entry differ. exact: no tolerance."""
    if set(a) != set(b):
        return "results %s and %s" % (sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return "%s: shapes %s and %s" % (k, x.shape, y.shape)
        if x.size == 0:
            continue
        if exact or x.dtype.kind in "iub":
            bad = ~((x == y) | ((x != x) & (y != y)))
        else:
            fin = np.isfinite(x)
            scale = max(1e-6, np.abs(x[fin]).max()) if fin.any() else 1.0
            with np.errstate(invalid="ignore"):
                bad = ~((x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= rtol * scale))
        if bad.any():
            t = tuple(int(c[0]) for c in np.nonzero(np.atleast_1d(bad)))
            return "%s%s: %r and %r (%d of %d entries differ)" % (
                k, list(t), np.atleast_1d(x)[t].tolist(), np.atleast_1d(y)[t].tolist(),
                int(bad.sum()), bad.size)
    return None
