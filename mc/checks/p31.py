"""Steinhardt's and SolidLiquid's results follow their documented definitions."""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
from scipy.special import gammaln, lpmv

from mc import ref, zoo

VARIANTS = ["full"]
BOUNDS = {
    "quick": "every combination of average, wl, weighted and wl_normalize, l = 0 to 20 and 3 sequences of several l, "
             "for 6 lists or arguments of neighbors (filtered, lopsided, weighted, of farther images) in 6 boxes x 3 systems; "
             "SolidLiquid for 4 l x 4 thresholds x 3 numbers of bonds x normalize_q on the same",
    "thorough": "as quick in 13 boxes x 6 systems",
}
HANG = 300
LS = [[l] for l in range(21)] + [[6, 4], [2, 11, 2, 5], [4, 0, 6, 8, 20]]
LISTS = ["ball", "near", "list", "weights", "images", "lumpy", "holes"]


def setup(ctx):
    global freud
    import freud
    zoo.freud = freud


def cases(tier):
    th = tier == "thorough"
    boxes = list(ref.BOXES) if th else ["cube8", "generic", "steep", "trineg", "sq", "neg2"]
    for b in boxes:
        for p in ["gen:12", "lat:2", "clu:14:4"] + (["gen:30:3", "bdy", "lat:3"] if th else []):
            for k in LISTS:
                yield {"c": "ql", "box": b, "p": p, "list": k}
                yield {"c": "solid", "box": b, "p": p, "list": k}


@functools.lru_cache(None)
def wigner(l):
    """[(m1, m2, m3, coefficient)] of (l l l; m1 m2 m3), by Racah's formula with exact sums."""
    F = math.factorial
    tri = Fraction(F(l) ** 3, F(3 * l + 1))
    out = []
    for a in range(-l, l + 1):
        for b in range(-l, l + 1):
            c = -a - b
            if abs(c) > l:
                continue
            s = Fraction(0)
            for t in range(0, 3 * l + 1):
                x = [t, t + a, t - b, l - t, l - a - t, l + b - t]
                if min(x) < 0:
                    continue
                q = 1
                for y in x:
                    q *= F(y)
                s += Fraction((-1) ** t, q)
            n = F(l - a) * F(l + a) * F(l - b) * F(l + b) * F(l - c) * F(l + c)
            out.append((a, b, c, (-1) ** abs(c) * math.copysign(math.sqrt(s * s * tri * n), s)))
    return out


def harmonics(l, v):
    """(bonds, 2l+1) values of Y_lm with the Condon-Shortley phase; m = 0..l, -1..-l."""
    r = np.linalg.norm(v, axis=1)
    z = v[:, 2] / r
    phi = np.arctan2(v[:, 1], v[:, 0])
    Y = np.empty((len(v), 2 * l + 1), complex)
    for m in range(l + 1):
        n = math.sqrt((2 * l + 1) / (4 * math.pi)) * math.exp((gammaln(l - m + 1) - gammaln(l + m + 1)) / 2)
        y = n * lpmv(m, l, np.clip(z, -1, 1)) * np.exp(1j * m * phi)
        Y[:, m] = y
        if m:
            Y[:, l + m] = (-1) ** m * y.conj()
    return Y


def bonds(s, kind):
    """(argument, i, j, vectors, weights)"""
    if kind == "ball" or kind == "near":
        a = s.nbr(kind)
        nl = freud.locality.AABBQuery(s.box, s.p).query(s.p, a).toNeighborList()
    else:
        if kind == "lumpy":
            nl = s.lumpy()
        else:
            nl = freud.locality.AABBQuery(s.box, s.p).query(s.p, s.nbr("ball")).toNeighborList()
            n = len(nl.distances)
            i, j, v = np.array(nl.query_point_indices), np.array(nl.point_indices), np.array(nl.vectors)
            w = np.ones(n, np.float32)
            k = np.arange(n)
            if kind == "weights":
                w = np.array([1, 0.25, 3, 0, 2.5], np.float32)[k * 7 % 5]
            if kind == "images":      # bonds to other images of the neighbors
                v = (v + s.cell.h.T[k % s.cell.dim] * ((k // 2) % 3 - 1)[:, None]).astype(np.float32)
            if kind == "holes":       # a third of the points have no bonds
                keep = i % 3 != 1
                i, j, v, w = i[keep], j[keep], v[keep], w[keep]
            if kind != "list":
                nl = freud.locality.NeighborList.from_arrays(s.n, s.n, i, j, v, w)
        a = nl
    return (a, np.array(nl.query_point_indices), np.array(nl.point_indices), np.array(nl.vectors, float),
            np.array(nl.weights, float))


def mean_harmonics(s, l, i, v, w):
    """Per point mean of the harmonics, and the largest error float32 can account for."""
    Y = harmonics(l, v)
    r = np.linalg.norm(v, axis=1)
    sin = np.hypot(v[:, 0], v[:, 1]) / r
    e = 4e-6 * s.half / r + np.where(sin == 0, 0, np.minimum(1e-3, 4e-7 / np.maximum(sin, 1e-9)))
    e = (e * (l + 1) * 1.5 + 1e-5 + 3e-6 * l) * math.sqrt((2 * l + 1) / (4 * math.pi))
    W = np.zeros(s.n)
    np.add.at(W, i, w)
    Q = np.zeros((s.n, 2 * l + 1), complex)
    np.add.at(Q, i, Y * w[:, None])
    E = np.zeros(s.n)
    np.add.at(E, i, e * w)
    with np.errstate(all="ignore"):
        return Q / W[:, None], E / W


def invariant(q, l, wl, normalize):
    """(value, error) of q_l or w_l of harmonics q (points, 2l+1), m = 0..l, -1..-l."""
    nrm = (np.abs(q) ** 2).sum(1)
    if not wl:
        x = np.sqrt(4 * np.pi / (2 * l + 1) * nrm)
        return x, 3e-6 * x + 1e-7
    x = np.zeros(len(q), complex)
    a = np.zeros(len(q))
    for m1, m2, m3, c in wigner(l):
        ix = [m if m >= 0 else l - m for m in (m1, m2, m3)]
        t = c * q[:, ix[0]] * q[:, ix[1]] * q[:, ix[2]]
        x += t
        a += np.abs(t)
    with np.errstate(all="ignore"):
        d = nrm ** 1.5 if normalize else 1.0
        return x.real / d, (5e-6 * a + 1e-9) / d


def close(ctx, got, want, tol, what):
    got = np.asarray(got, float)
    ctx.require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    nan = np.isnan(want)
    with np.errstate(all="ignore"):
        bad = (np.isnan(got) != nan) & ~(np.broadcast_to(tol, want.shape) >= 10)
        bad |= ~nan & ~np.isnan(got) & ~(np.abs(got - want) <= tol)
    if bad.any():
        k = tuple(int(x[0]) for x in np.nonzero(bad))
        ctx.fail("%s: %g at %s, expected %g (%d entries differ)" % (what, got[k], k, want[k], bad.sum()))
    ctx.state()


def cplx(ctx, got, want, tol, what):
    got = np.asarray(got, complex)
    ctx.require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    nan = np.isnan(want)
    with np.errstate(all="ignore"):
        bad = (np.isnan(got) != nan) | ~nan & ~(np.abs(got - want) <= tol[:, None])
    if bad.any():
        k = tuple(int(x[0]) for x in np.nonzero(bad))
        ctx.fail("%s: %s at %s, expected %s" % (what, got[k], k, want[k]))
    ctx.state()


def ql(case, ctx, s):
    arg, i, j, v, w = bonds(s, case["list"])
    if len(v) and np.linalg.norm(v, axis=1).min() < 1e-3:
        keep = np.linalg.norm(v, axis=1) >= 1e-3
        i, j, v, w = i[keep], j[keep], v[keep], w[keep]
        arg = freud.locality.NeighborList.from_arrays(s.n, s.n, i, j, v.astype(np.float32), w.astype(np.float32))
    sy = s.system(freud, "aabb")
    nb = np.bincount(i, minlength=s.n)
    for ls in LS:
        R = {wt: [mean_harmonics(s, l, i, v, w if wt else np.ones(len(w))) for l in ls] for wt in (False, True)}
        for ave, wl, wt, nrm in itertools.product((False, True), repeat=4):
            if nrm and not wl:
                continue
            o = freud.order.Steinhardt(ls if len(ls) > 1 else ls[0], average=ave, wl=wl, weighted=wt, wl_normalize=nrm)
            o.compute(sy, neighbors=arg)
            ctx.step()
            what = "l=%s average=%s wl=%s weighted=%s wl_normalize=%s, %s neighbors" % (
                ls, ave, wl, wt, nrm, case["list"])
            H = o.particle_harmonics
            H = [H] if len(ls) == 1 else H
            P = np.asarray(o.particle_order).reshape(s.n, len(ls))
            Q = np.asarray(o.ql).reshape(s.n, len(ls))
            O = [o.order] if len(ls) == 1 else o.order
            ctx.require(len(O) == len(H) == len(ls), what + ": number of results")
            for k, l in enumerate(ls):
                want, tol = R[wt][k]
                cplx(ctx, H[k], want, tol, what + ": particle_harmonics")
                h = np.array(H[k], complex)
                x, t = invariant(h, l, False, False)
                close(ctx, Q[:, k], x, t, what + ": ql")
                if ave:
                    g = h.copy()
                    np.add.at(g, i, h[j])
                    h = g / (nb + 1)[:, None]
                x, t = invariant(h, l, wl, nrm)
                # where the harmonics all but cancel, normalizing has nothing to hold on to
                if nrm:
                    m = (np.abs(h) ** 2).sum(1)
                    t = t + np.where(m < 1e-6, 10, 1e-6 / np.maximum(m, 1e-12) ** 0.5)
                ta = t + 2e-6 * np.sqrt(2 * l + 1) if ave else t
                close(ctx, P[:, k], x, ta, what + ": particle_order")
                if not np.isnan(h).any():
                    h = h.mean(0)[None]
                    x, t = invariant(h, l, wl, nrm)
                    m = (np.abs(h) ** 2).sum()
                    if nrm and m < 1e-6:
                        continue
                    t = t + 4e-6 * (1 + np.sqrt(2 * l + 1)) / (m ** 0.5 if nrm else 1)
                    close(ctx, np.array([O[k]]), x, t, what + ": order")


def solid(case, ctx, s):
    arg, i, j, v, w = bonds(s, case["list"])
    if len(v) and np.linalg.norm(v, axis=1).min() < 1e-3:
        return
    sy = s.system(freud, "aabb")
    for l, thr, num, norm in itertools.product((0, 3, 6, 10), (0.0, 0.1, 0.5, 0.95), (0, 1, 3),
                                               (True, False)):
        o = freud.order.SolidLiquid(l, thr, num, normalize_q=norm)
        o.compute(sy, neighbors=arg)
        ctx.step()
        what = "SolidLiquid(%d, %g, %d, %s), %s neighbors" % (l, thr, num, norm, case["list"])
        want, tol = mean_harmonics(s, l, i, v, np.ones(len(w)))
        cplx(ctx, o.particle_harmonics, want, tol, what + ": particle_harmonics")
        h = np.array(o.particle_harmonics, complex)
        nl = o.nlist
        ctx.require(np.array_equal(nl.query_point_indices, i) and np.array_equal(nl.point_indices, j),
                    what + ": nlist is not the list of neighbors")
        x = (h[i] * h[j].conj()).sum(1).real
        n = np.sqrt((np.abs(h) ** 2).sum(1))
        t = 1e-6 * (1 + n[i] * n[j])
        if norm:
            with np.errstate(all="ignore"):
                x, t = x / (n[i] * n[j]), 1e-5 + 1e-6 / (n[i] * n[j])
        close(ctx, o.ql_ij, x, t, what + ": ql_ij")
        x = np.array(o.ql_ij)
        with np.errstate(all="ignore"):
            sel = x > np.float32(thr)
        num_c = np.bincount(i[sel], minlength=s.n)
        ctx.require(np.array_equal(o.num_connections, num_c), lambda: "%s: num_connections %s, expected %s" % (
            what, o.num_connections[:12], num_c[:12]))
        sel &= (num_c[i] >= num) & (num_c[j] >= num)
        lab, comps = components(s.n, i[sel], j[sel])
        ctx.require(np.array_equal(o.cluster_idx, lab), lambda: "%s: cluster_idx %s, expected %s" % (
            what, np.array(o.cluster_idx).tolist(), lab.tolist()))
        sizes = [len(c) for c in comps]
        ctx.require(list(o.cluster_sizes) == sizes and o.largest_cluster_size == sizes[0],
                    lambda: "%s: cluster_sizes %s, expected %s" % (what, list(o.cluster_sizes), sizes))
        ctx.state()


def components(n, i, j):
    root = list(range(n))

    def find(a):
        while root[a] != a:
            root[a] = root[root[a]]
            a = root[a]
        return a
    for a, b in zip(i.tolist(), j.tolist()):
        a, b = find(a), find(b)
        root[max(a, b)] = min(a, b)
    groups = {}
    for a in range(n):
        groups.setdefault(find(a), []).append(a)
    comps = sorted(groups.values(), key=lambda c: (-len(c), c[0]))
    lab = np.zeros(n, int)
    for k, c in enumerate(comps):
        lab[c] = k
    return lab, comps


def check(case, ctx):
    s = zoo.System(case["box"], case["p"])
    {"ql": ql, "solid": solid}[case["c"]](case, ctx, s)
