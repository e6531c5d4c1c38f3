"""Reference models in plain numpy, in double precision: boxes, images, neighbour sets.

Nothing here calls the library: these are the specifications the checks compare it with.
"""
import itertools

import numpy as np

# name: (Lx, Ly, Lz, xy, xz, yz); Lz == 0: two-dimensional.
BOXES = {
    "cube8": (8, 8, 8, 0, 0, 0),
    "cube4": (4, 4, 4, 0, 0, 0),
    "slab": (8, 4, 16, 0, 0, 0),
    "odd": (7, 9, 6, 0, 0, 0),
    "tri": (8, 8, 8, 0.5, 0.25, -0.5),
    "trineg": (8, 8, 8, -0.5, 0.25, 0.5),
    "generic": (7.3, 6.1, 5.7, 0.3, -0.4, 0.2),
    "steep": (8, 6, 7, 1.0, -0.75, 0.5),
    "sq": (8, 8, 0, 0, 0, 0),
    "rect": (8, 4, 0, 0, 0, 0),
    "odd2": (7, 9, 0, 0, 0, 0),
    "tri2": (8, 8, 0, 0.5, 0, 0),
    "neg2": (6.5, 5.5, 0, -0.4, 0, 0),
}


class Cell:
    """A periodic cell given by (Lx, Ly, Lz, xy, xz, yz)."""

    def __init__(self, spec):
        if isinstance(spec, str):
            spec = BOXES[spec]
        self.spec = tuple(float(x) for x in spec)
        Lx, Ly, Lz, xy, xz, yz = [float(np.float32(x)) for x in self.spec]
        self.is2d = Lz == 0
        self.dim = 2 if self.is2d else 3
        h = np.array([[Lx, xy * Ly, xz * Lz], [0, Ly, yz * Lz], [0, 0, Lz]])
        if self.is2d:
            h[2, 2] = 1.0
        self.h = h                      # columns: lattice vectors
        self.hinv = np.linalg.inv(h)
        d = self.dim
        self.planes = np.array([1 / np.linalg.norm(self.hinv[k]) for k in range(d)])
        self.volume = Lx * Ly * (1.0 if self.is2d else Lz)
        self.L = np.array([Lx, Ly, Lz])

    def freud(self, periodic=None):
        import freud
        b = freud.box.Box(*self.spec, is2D=self.is2d)
        if periodic is not None:
            b.periodic = periodic
        return b

    def frac(self, v):
        """Fractional coordinates in [0, 1) for points of the cell centred at the origin."""
        f = np.asarray(v, float) @ self.hinv.T + 0.5
        if self.is2d:
            f[..., 2] = 0
        return f

    def absolute(self, f):
        f = np.array(f, float)
        g = f - 0.5
        if self.is2d:
            g[..., 2] = 0
        return g @ self.h.T

    def images(self, m):
        r = range(-m, m + 1)
        zs = [0] if self.is2d else r
        n = np.array(list(itertools.product(r, r, zs)), float)
        return n, n @ self.h.T

    def min_image(self, v):
        """Shortest periodic image of each vector."""
        v = np.atleast_2d(np.asarray(v, float))
        f = v @ self.hinv.T
        f -= np.round(f)
        if self.is2d:
            f[..., 2] = 0
        v = f @ self.h.T
        _, im = self.images(2)
        w = v[:, None, :] + im[None]
        k = np.argmin((w ** 2).sum(-1), axis=1)
        return w[np.arange(len(v)), k]


def lattice(cell, g, shift=0.0):
    """All points with fractional coordinates (k + shift)/g."""
    r = [(k + shift) / g for k in range(g)]
    f = np.array(list(itertools.product(r, r, [0.5] if cell.is2d else r)))
    return f32(cell.absolute(f), cell)


def f32(p, cell=None):
    p = np.ascontiguousarray(np.asarray(p, np.float32).reshape(-1, 3))
    if cell is not None and cell.is2d:
        p[:, 2] = 0
    return p


def generic(cell, n, seed=1):
    """n fixed points in general position."""
    f = np.random.RandomState(1000 + seed).rand(n, 3)
    return f32(cell.absolute(f), cell)


def clustered(cell, n, seed=1, ncl=3, width=0.05):
    """Fixed points in a few tight groups (some of them across the boundary)."""
    rs = np.random.RandomState(2000 + seed)
    c = rs.rand(ncl, 3)
    c[0] = 0.0
    f = c[np.arange(n) % ncl] + width * (rs.rand(n, 3) - 0.5)
    return f32(cell.absolute(f % 1.0), cell)


def boundary(cell):
    """Corners, faces and edges of the cell, the centre, and points one step inside."""
    e = np.float64(1) - 1e-6
    r = [0.0, 0.5, e]
    f = np.array(list(itertools.product(r, r, [0.5] if cell.is2d else r)))
    return f32(cell.absolute(f), cell)


# larger systems, in a few boxes: (points, query points)
BIG = {"generic": [("gen:260:6", "gen:270:7")], "sq": [("gen:300:5", None)]}


def points(cell, spec):
    """Points named by a string: lat:g, gen:n[:seed], clu:n[:seed], bdy, dup:n, one."""
    w = spec.split(":")
    k, a = w[0], w[1:]
    if k == "lat":
        return lattice(cell, int(a[0]), float(a[1]) if len(a) > 1 else 0.0)
    if k == "gen":
        return generic(cell, int(a[0]), int(a[1]) if len(a) > 1 else 1)
    if k == "clu":
        return clustered(cell, int(a[0]), int(a[1]) if len(a) > 1 else 1)
    if k == "bdy":
        return boundary(cell)
    if k == "dup":
        p = generic(cell, max(1, int(a[0]) // 2), 7)
        return f32(np.concatenate([p, p, p])[:int(a[0])], cell)
    if k == "sub":          # sub:g:i,j,k   some points of the g lattice
        return lattice(cell, int(a[0]))[[int(x) for x in a[1].split(",")]]
    if k == "line":         # equally spaced along the first lattice vector
        n = int(a[0])
        f = np.zeros((n, 3)) + 0.5
        f[:, 0] = (np.arange(n) + 0.25) / n
        return f32(cell.absolute(f), cell)
    raise ValueError(spec)


def ball_pairs(cell, q, p, r_hi):
    """Every (i, j, image) with distance <= r_hi: arrays i, j, vectors, distances (double)."""
    q = np.asarray(q, float)
    p = np.asarray(p, float)
    m = int(1 + r_hi / cell.planes.min() + 1e-4)
    _, im = cell.images(m)
    oi, oj, ov = [], [], []
    step = max(1, int(4e6 // max(1, len(p) * len(im))))
    for s in range(0, len(q), step):
        d = p[None, :, None, :] + im[None, None] - q[s:s + step, None, None, :]
        d2 = (d ** 2).sum(-1)
        a, b, c = np.nonzero(d2 <= r_hi * r_hi)
        oi.append(a + s)
        oj.append(b)
        ov.append(d[a, b, c])
    i = np.concatenate(oi) if oi else np.zeros(0, int)
    j = np.concatenate(oj) if oj else np.zeros(0, int)
    v = np.concatenate(ov) if ov else np.zeros((0, 3))
    return i, j, v, np.sqrt((v ** 2).sum(-1))


def min_dist(cell, q, p):
    """Matrix of minimum-image distances, query point by point."""
    q = np.asarray(q, float)
    p = np.asarray(p, float)
    d = p[None, :, :] - q[:, None, :]
    w = cell.min_image(d.reshape(-1, 3))
    return np.sqrt((w ** 2).sum(-1)).reshape(len(q), len(p))


def is_exact(cell, *arrays):
    """Coordinates and cell on a dyadic grid: the library's float arithmetic is exact on them."""
    if any(cell.spec[3:]):
        return False
    for L in cell.spec[:cell.dim]:
        if np.log2(L) != int(np.log2(L)):
            return False
    return all(np.all(np.asarray(a, float) * 64 == np.round(np.asarray(a, float) * 64))
               for a in arrays)


def nlist_arrays(nl):
    """(query_point_indices, point_indices, vectors, distances, weights) as copies."""
    return (np.array(nl.query_point_indices, int), np.array(nl.point_indices, int),
            np.array(nl.vectors, float).reshape(-1, 3), np.array(nl.distances, float),
            np.array(nl.weights, float))


def check_structure(nl, nq, npts, fail, by_distance=None):
    """What holds for every neighbour list, however it was made."""
    i, j, v, d, w = nlist_arrays(nl)
    n = len(i)
    if not (len(nl) == len(j) == len(v) == len(d) == len(w) == n):
        fail("the arrays of the list differ in length")
    if nl.num_query_points != nq or nl.num_points != npts:
        fail("list sizes (%d, %d), expected (%d, %d)"
             % (nl.num_query_points, nl.num_points, nq, npts))
    if n and (i.max() >= nq or j.max() >= npts):
        fail("index out of range: (%d, %d) of (%d, %d)" % (i.max(), j.max(), nq, npts))
    if np.any(np.diff(i) < 0):
        fail("query point indices not ascending: %s" % i.tolist()[:30])
    cnt = np.bincount(i, minlength=nq)
    if not np.array_equal(np.array(nl.neighbor_counts, int), cnt):
        fail("neighbor_counts %s, expected %s" % (np.array(nl.neighbor_counts).tolist()[:20],
                                                  cnt.tolist()[:20]))
    seg = np.array(nl.segments, int)
    start = np.searchsorted(i, np.arange(nq))
    if len(seg) != nq or np.any((seg != start) & (cnt > 0)):
        fail("segments %s, expected %s where counts are nonzero" % (seg.tolist()[:20],
                                                                   start.tolist()[:20]))
    nv = np.sqrt((v ** 2).sum(-1))
    bad = np.abs(nv - d) > 1e-5 * (1 + nv)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        fail("bond %d: distance %r but |vector| %r" % (k, d[k], nv[k]))
    if by_distance is True:
        ok = (np.diff(i) > 0) | (np.diff(d) >= 0)
        if not ok.all():
            fail("not sorted by (query point, distance)")
    elif by_distance is False:
        ok = (np.diff(i) > 0) | (np.diff(j) >= 0)
        if not ok.all():
            fail("not sorted by (query point, point)")
    return i, j, v, d, w


def check_ball(cell, q, p, bonds, r_max, r_min, exclude_ii, fail, exact=False, ref=None):
    """bonds (i, j, v): exactly the pairs with r_min <= distance < r_max, each once."""
    i, j, v = bonds
    scale = float(max(cell.L))
    eps = 0.0 if exact else 3e-6 * scale
    ri, rj, rv, rd = ref if ref is not None else ball_pairs(cell, q, p, r_max + 2e-5 * scale)
    if exclude_ii:
        k = ri != rj
        ri, rj, rv, rd = ri[k], rj[k], rv[k], rd[k]
    may = (rd >= r_min - eps) & (rd < r_max + eps)
    must = (rd >= r_min + eps) & (rd < r_max - eps)
    if exact:
        must = may
    ri, rj, rv, rd, must = ri[may], rj[may], rv[may], rd[may], must[may]
    # match every returned bond with one image pair
    tol = 2e-5 * scale
    rk = ri.astype(np.int64) * len(p) + rj
    o = np.argsort(rk, kind="stable")
    rk, ri, rj, rv, rd, must = rk[o], ri[o], rj[o], rv[o], rd[o], must[o]
    bk = i.astype(np.int64) * len(p) + j
    if len(rk) and np.all(np.diff(rk) > 0) and len(np.unique(bk)) == len(bk):
        t = np.minimum(np.searchsorted(rk, bk), len(rk) - 1)
        if np.all(rk[t] == bk) and np.all(np.abs(rv[t] - v) <= tol):
            used = np.zeros(len(rk), bool)
            used[t] = True
            if not (must & ~used).any():
                return
    key = {}
    for t in range(len(ri)):
        key.setdefault((int(ri[t]), int(rj[t])), []).append(t)
    used = np.zeros(len(ri), bool)
    for t in range(len(i)):
        c = key.get((int(i[t]), int(j[t])), ())
        hit = [s for s in c if np.abs(rv[s] - v[t]).max() <= tol]
        if not hit:
            fail("bond (%d, %d) with vector %s: no such pair in [%g, %g)%s" % (
                i[t], j[t], np.round(v[t], 5).tolist(), r_min, r_max,
                "" if not c else "; the pair's vectors: %s" % np.round(
                    rv[list(c)], 5).tolist()))
        free = [s for s in hit if not used[s]]
        if not free:
            fail("bond (%d, %d) with vector %s returned twice" % (
                i[t], j[t], np.round(v[t], 5).tolist()))
        used[free[0]] = True
    miss = must & ~used
    if miss.any():
        t = int(np.nonzero(miss)[0][0])
        fail("pair (%d, %d) at distance %.6f in [%g, %g) is missing (%d missing of %d)" % (
            ri[t], rj[t], rd[t], r_min, r_max, int(miss.sum()), int(must.sum())))


def check_nearest(cell, q, p, bonds, k, r_max, r_min, exclude_ii, fail, dist=None, exact=False):
    """bonds (i, j, v, d): for each query point its k nearest points with r_min <= d < r_max."""
    i, j, v, d = bonds
    scale = float(max(cell.L))
    eps = 0.0 if exact else 1e-5 * scale
    D = min_dist(cell, q, p) if dist is None else dist
    for a in range(len(q)):
        row = D[a].copy()
        if exclude_ii and a < len(row):
            row[a] = np.inf
        sel = i == a
        js, ds, vs = j[sel], d[sel], v[sel]
        if len(set(js.tolist())) != len(js):
            fail("query point %d: a point is returned twice: %s" % (a, js.tolist()))
        may = (row >= r_min - eps) & (row < r_max + eps) & np.isfinite(row)
        must = (row >= r_min + eps) & (row < r_max - eps) & np.isfinite(row)
        if exact:
            must = may
        if not may[js].all():
            b = js[~may[js]][0]
            fail("query point %d: point %d at distance %.6f does not qualify" % (a, b, D[a, b]))
        lo, hi = min(k, int(must.sum())), min(k, int(may.sum()))
        if not lo <= len(js) <= hi:
            fail("query point %d: %d neighbours, expected %s of %d qualifying" % (
                a, len(js), lo if lo == hi else (lo, hi), int(must.sum())))
        if np.abs(ds - row[js]).max(initial=0) > 2e-5 * scale:
            b = int(np.argmax(np.abs(ds - row[js])))
            fail("query point %d, point %d: distance %.6f, minimum-image distance %.6f" % (
                a, js[b], ds[b], row[js[b]]))
        dv = np.asarray(p, float)[js] - np.asarray(q, float)[a]
        f = (vs - dv) @ cell.hinv.T
        if len(js) and np.abs(f - np.round(f)).max() > 1e-4:
            fail("query point %d: a bond vector is no image of point - query point" % a)
        if len(js) < k and hi == lo:
            continue
        if len(js):
            left = must.copy()
            left[js] = False
            if left.any() and row[left].min() < row[js].max() - max(eps, 1e-12):
                b = int(np.nonzero(left)[0][np.argmin(row[left])])
                fail("query point %d: point %d at %.6f left out although %.6f is in" % (
                    a, b, row[b], row[js].max()))
