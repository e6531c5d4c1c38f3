"""LocalDescriptors' harmonics and Nematic's tensors follow their documented definitions."""
import itertools
import math

import numpy as np

from mc import ref, zoo
from mc.checks import p31

VARIANTS = ["full"]
BOUNDS = {
    "quick": "l_max 0 to 8 and 12 x negative_m x 3 modes x 5 limits on the neighbors x points, fewer, more or single query points x "
             "4 kinds of lists in 4 boxes x 2 systems; nematic tensors of every multiset of 1 to 4 of 7 directions, of "
             "unnormalized and of 30 generic vectors",
    "thorough": "as quick in 13 boxes x 5 systems; every multiset of up to 6 directions",
}
HANG = 300
DIRS = np.array([[1, 0, 0], [0, 1, 0], [0, 0, -3], [1, 1, 0], [1, 2, -2], [-1, 0.5, 0.1], [1e-3, 0, 2e-3]])


def setup(ctx):
    global freud
    import freud
    zoo.freud = freud


def cases(tier):
    th = tier == "thorough"
    for b in (ref.BOXES if th else ("cube8", "generic", "trineg", "neg2")):
        for p in ["gen:9", "lat:2"] + (["gen:30:3", "clu:14:4", "bdy"] if th else []):
            for q in (None, "gen:4:7", "gen:13:8", "gen:1:5"):
                for k in ("ball", "near", "list", "holes"):
                    yield {"c": "ld", "box": b, "p": p, "q": q, "list": k}
    for n in range(1, 7 if th else 5):
        for first in range(len(DIRS)):
            yield {"c": "nematic", "n": n, "first": first}
    yield {"c": "nematic", "n": 0, "first": 0}


def lists(s, kind):
    aq = freud.locality.AABBQuery(s.box, s.p)
    q = s.p if s.q is None else s.q
    arg = s.nbr("near" if kind == "near" else "ball")
    nl = aq.query(q, arg).toNeighborList()
    i, j, v = np.array(nl.query_point_indices), np.array(nl.point_indices), np.array(nl.vectors)
    if kind in ("ball", "near"):
        return arg, i, j, v.astype(float)
    if kind == "holes":
        k = (i % 3 != 1) & ((j + i) % 4 != 0)
        i, j, v = i[k], j[k], v[k]
        nl = freud.locality.NeighborList.from_arrays(s.m, s.n, i, j, v)
    return nl, i, j, v.astype(float)


def order(lmax, neg):
    """(l, m) of every column."""
    return [(l, m) for l in range(lmax + 1) for m in list(range(l + 1)) + (list(range(-1, -l - 1, -1)) if neg else [])]


def expected(lmax, neg, u):
    cols = []
    for l in range(lmax + 1):
        Y = p31.harmonics(l, u)
        # without the Condon-Shortley phase
        ph = np.array([(-1) ** m for m in range(l + 1)] + [1] * l)
        Y = Y * ph
        if neg:
            Y[:, l + 1:] = Y[:, 1:l + 1].conj()
        cols.append(Y if neg else Y[:, :l + 1])
    return np.concatenate(cols, 1)


def rotate(q, v):
    w, x = q[0], q[1:]
    t = 2 * np.cross(x, v)
    return v + w * t + np.cross(x, t)


def ld(case, ctx):
    s = zoo.System(case["box"], case["p"], q=case["q"])
    arg, i, j, v = lists(s, case["list"])
    r = np.linalg.norm(v, axis=1)
    if len(r) and r.min() < 1e-3:
        return
    qq = s.qquats
    for lmax, neg, mode, limit in itertools.product(list(range(9)) + [12], (True, False),
                                                    ("global", "particle_local", "neighborhood"), (0, 1, 2, 3, 100)):
        o = freud.environment.LocalDescriptors(lmax, negative_m=neg, mode=mode)
        kw = {"orientations": qq} if mode == "particle_local" else {}
        o.compute(s.system(freud, "aabb"), neighbors=arg, max_num_neighbors=limit, **kw, **s.qp())
        ctx.step()
        what = "LocalDescriptors(%d, %s, %s), at most %d of the %s neighbors" % (lmax, neg, mode, limit, case["list"])
        nl = o.nlist
        ctx.require(np.array_equal(nl.query_point_indices, i) and np.array_equal(nl.point_indices, j),
                    what + ": nlist is not the list of neighbors")
        got = np.array(o.sph, complex)
        width = len(order(lmax, neg))
        ctx.require(got.shape == (len(i), width) and o.num_sphs == len(i),
                    lambda: "%s: sph has shape %s, %d sphs" % (what, got.shape, o.num_sphs))
        first = np.searchsorted(i, i)
        used = (np.arange(len(i)) - first < limit) if limit else np.ones(len(i), bool)
        if not used.any():
            continue
        if mode == "global":
            u = v
        elif mode == "particle_local":
            u = np.array([rotate(qq[a].astype(float) * [1, -1, -1, -1], x) for a, x in zip(i, v)])
        elif lmax == 0:
            u = v
        else:
            # the frame, read from l = 1, must be one of the principal axes of the neighborhood
            z = got[:, 1].real / math.sqrt(3 / (4 * math.pi))
            xy = got[:, 2] / math.sqrt(3 / (8 * math.pi))
            u = np.stack([xy.real, xy.imag, z], 1) * r[:, None]
            for a in np.unique(i[used]):
                k = used & (i == a)
                x, y = v[k], u[k]
                sc = (r[k] ** 2).max()
                ctx.require(np.abs(x @ x.T - y @ y.T).max() <= 3e-3 * sc, lambda: "%s: the frame of %d is not orthonormal" % (
                    what, a))
                T = (y ** 2).sum() * np.eye(3) - y.T @ y
                off = T - np.diag(np.diag(T))
                ctx.require(np.abs(off).max() <= 2e-3 * np.trace(T) and (np.diff(np.diag(T)) >= -2e-3 * np.trace(T)).all(),
                            lambda: "%s: the axes of %d are not the principal ones: %s" % (what, a, T.tolist()))
                ctx.state()
        want = expected(lmax, neg, np.where(used[:, None], u, 1.0))
        sin = np.hypot(u[:, 0], u[:, 1]) / r
        e = 4e-6 * s.half / r + np.where(sin == 0, 1e-6, np.minimum(2e-3, 1e-6 / np.maximum(sin, 1e-9)))
        if mode == "neighborhood":
            e = e * 4 + 1e-5
        tol = np.array([(e * (l + 1) * 1.5 + 1e-5 + 3e-6 * l) * math.sqrt((2 * l + 1) / (4 * math.pi))
                        for l, m in order(lmax, neg)]).T
        bad = used[:, None] & ~(np.abs(got - want) <= tol)
        if bad.any():
            k = tuple(int(x[0]) for x in np.nonzero(bad))
            ctx.fail("%s: Y%s of bond %d (%d, %d) is %s, expected %s" % (
                what, order(lmax, neg)[k[1]], k[0], i[k[0]], j[k[0]], got[k], want[k]))
        ctx.require((got[~used] == 0).all(), what + ": rows beyond the limit are set")
        ctx.state()


def nematic(case, ctx):
    n = case["n"]
    if n:
        pick = [c for c in itertools.combinations_with_replacement(range(len(DIRS)), n) if c[0] == case["first"]]
        sets = [DIRS[list(c)] for c in pick]
    else:
        rs = np.random.RandomState(4)
        sets = [rs.randn(30, 3) * 10.0 ** k + off for k in (-3, 0, 4) for off in (0, [0, 0, 3])]
    for u in sets:
        for form in (np.float32, float, list):
            a = u.tolist() if form is list else u.astype(form)
            o = freud.order.Nematic()
            o.compute(a)
            ctx.step()
            x = u.astype(np.float32).astype(float)
            x /= np.linalg.norm(x, axis=1)[:, None]
            Q = 1.5 * x[:, :, None] * x[:, None] - 0.5 * np.eye(3)
            what = "Nematic of %s" % u[:4].tolist()
            got = np.array(o.particle_tensor, float)
            ctx.require(got.shape == Q.shape and np.abs(got - Q).max() < 3e-6, what + ": particle_tensor")
            M = Q.mean(0)
            ctx.require(np.shape(o.nematic_tensor) == (3, 3) and np.abs(o.nematic_tensor - M).max() < 3e-6,
                        what + ": nematic_tensor")
            w = np.linalg.eigvalsh(M)
            ctx.require(abs(o.order - w[-1]) < 1e-5, lambda: "%s: order %g, expected %g" % (what, o.order, w[-1]))
            d = np.array(o.director, float)
            ctx.require(d.shape == (3,) and abs(np.linalg.norm(d) - 1) < 1e-5 and np.abs(M @ d - w[-1] * d).max() < 2e-5,
                        lambda: "%s: director %s is not an axis of the largest eigenvalue" % (what, d))
            ctx.state()


def check(case, ctx):
    {"ld": ld, "nematic": nematic}[case["c"]](case, ctx)
