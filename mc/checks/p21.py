"""Order parameters of orientations and bond angles follow their definitions."""
import itertools

import numpy as np

from mc import ref, zoo
from mc.checks.p19 import conj, qrot
from mc.checks.p20 import neighbors, qmul, some_quats

BOUNDS = {
    "quick": "Hexatic: 5 boxes x 9 systems x k from 1 to 12 x weighted or not x arguments, defaults and lists with weights (some 0 or "
             "missing); autocorrelation: l from 0 to 30 for every pair of 40 orientations; Cubatic: 5 sets of orientations x 3 temperatures x 3 scales "
             "x 8 seeds x up to 4 replicates; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more systems, seeds and orientations",
}
HANG = 200
SYS = ["gen:7", "gen:13:2", "clu:9:4", "lat:3", "lat:4:0.5", "gen:1", "gen:2", "gen:20:6", "gen:40:3"]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        if ref.Cell(b).is2d:
            for p in SYS + (["gen:90:5", "bdy"] if th else []) + [x[0] for x in ref.BIG.get(b, [])]:
                yield {"c": "hexatic", "box": b, "p": p}
    for l in range(0, 32 if not th else 42, 2):
        yield {"c": "ra", "l": l}
    for kind, seed in itertools.product(range(5), range(8 if not th else 24)):
        yield {"c": "cubatic", "kind": kind, "seed": seed}


def hexatic(case, ctx):
    s = zoo.System(case["box"], case["p"])
    scale = float(max(s.cell.L))
    for form in ("ball", "near", "list", "filtered", "default", "short"):
        if form in ("near",) and s.n < 2 or form == "default" and s.n < 15:
            continue
        if form == "short":
            nbr = {"r_max": 0.3 * s.half, "exclude_ii": True}
            nl = freud.locality.AABBQuery(s.box, s.p).query(s.p, nbr).toNeighborList()
        elif form != "default":
            nbr, nl = neighbors(s, form)
        if form == "filtered":
            nl.filter(np.arange(len(nl)) % 3 != 1)
        for k in range(1, 13):
            if form == "default":
                nl = freud.locality.AABBQuery(s.box, s.p).query(s.p, {"num_neighbors": k, "exclude_ii": True}).toNeighborList()
            for weighted in (False, True):
                i, j, v, d, w = ref.nlist_arrays(nl)
                arg = None if form == "default" else nbr
                if form in ("list", "filtered"):
                    w = np.float32(0.25 * (np.arange(len(i)) * 7 % 5) + (0.5 if form == "list" else 0))
                    arg = freud.locality.NeighborList.from_arrays(s.n, s.n, i, j, v, w)
                o = freud.order.Hexatic(k, weighted)
                o.compute((s.box, s.p), neighbors=arg)
                ctx.step()
                w = w.astype(float) if weighted and form in ("list", "filtered") else np.ones(len(i))
                th = np.arctan2(v[:, 1].astype(float), v[:, 0])
                num = np.zeros(s.n, complex)
                np.add.at(num, i.astype(int), w * np.exp(1j * k * th))
                den, slack = np.zeros(s.n), np.zeros(s.n)
                np.add.at(den, i.astype(int), w)
                np.add.at(slack, i.astype(int), w * (k * (4e-6 * scale / np.maximum(d, 1e-9) + 1e-6)))
                got = np.array(o.particle_order).astype(complex)
                what = "Hexatic(%d, %s) of %s in %s, %s neighbors" % (k, weighted, case["p"], case["box"], form)
                ctx.require(got.shape == (s.n,), lambda: "%s: shape %s" % (what, got.shape))
                has = den > 0
                ctx.require(np.all(~has | (np.abs(got * np.where(has, den, 1) - num) <= slack + 2e-5 * den)), lambda: "%s: %s, expected %s" % (
                    what, got[has][:4], (num / np.where(has, den, 1))[has][:4]))
                ctx.require(np.all(has | ~np.isfinite(got) | (got == 0)), lambda: "%s: %s for points without neighbors" % (what, got[~has][:3]))
                ctx.state()


def ra(case, ctx):
    l = case["l"]
    o = freud.order.RotationalAutocorrelation(l)
    base = [some_quats(n, k, 5 + k) for n, k in ((14, 0), (10, 1), (6, 2))]
    base.append(np.float32([[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [.5, .5, .5, .5],
                            [np.sqrt(.5), 0, 0, np.sqrt(.5)], [0.6, 0, 0.8, 0]]))
    Q = np.concatenate(base)
    n = len(Q)
    A, B = np.repeat(Q, n, 0), np.tile(Q, (n, 1))
    parts = [slice(0, n * n)] + [slice(x * n, (x + 1) * n) for x in range(n)] + [slice(5, 6)]
    c = (A.astype(float) * B.astype(float)).sum(1)
    U = [np.ones_like(c), 2 * c]
    while len(U) <= l:
        U.append(2 * c * U[-1] - U[-2])
    want = U[l] / (l + 1)
    tol = 3e-6 * (1 + l * l)
    for p in parts:
        o.compute(A[p], B[p])
        ctx.step()
        got = np.array(o.particle_order).astype(complex)
        ctx.require(got.shape == want[p].shape and np.abs(got - want[p]).max() <= tol, lambda: "RotationalAutocorrelation(%d): particle_order differs by %g" % (
            l, np.abs(got - want[p]).max()))
        ctx.require(abs(o.order - want[p].mean()) <= tol, lambda: "RotationalAutocorrelation(%d): order %g, expected %g" % (
            l, o.order, want[p].mean()))
        ctx.state()


def outer4(v):
    return np.einsum("...i,...j,...k,...l->...ijkl", v, v, v, v)


E3 = np.eye(3)
R4 = 0.4 * (np.einsum("ij,kl->ijkl", E3, E3) + np.einsum("ik,jl->ijkl", E3, E3) + np.einsum("il,jk->ijkl", E3, E3))


def tensor(q):
    """Homogeneous tensor of orientations (n, 4)."""
    q = np.atleast_2d(np.asarray(q, float))
    T = 0
    for e in E3:
        T = T + outer4(qrot(q, np.tile(e, (len(q), 1))))
    return 2 * T - R4


def opar(C, G):
    return 1 - ((G - C) ** 2).sum((-1, -2, -3, -4)) / (C ** 2).sum((-1, -2, -3, -4))


def cubatic(case, ctx):
    kind, seed = case["kind"], case["seed"]
    Q = [some_quats(1, 0, 3), some_quats(9, 0, 4), some_quats(8, 1, 5), some_quats(7, 2, 6),
         np.float32([qmul(some_quats(1, 0, 9)[0].astype(float), g) for g in
                     np.array([[1, 0, 0, 0], [-1, 0, 0, 0], [np.sqrt(.5), 0, 0, np.sqrt(.5)], [.5, .5, .5, .5], [0, 0, 1, 0]])])][kind]
    T = tensor(Q)
    G = T.mean(0)
    for (t0, t1), sc in itertools.product([(5, 1e-4), (1, 0.05), (0.01, 0.002)], (0.95, 0.5, 0.8)):
        best = -np.inf
        prev = None
        for rep in (1, 2, 3, 4):
            o = freud.order.Cubatic(t0, t1, sc, rep, seed)
            o.compute(Q)
            ctx.step()
            what = "Cubatic(%g, %g, %g, %d, %d) of orientations %d" % (t0, t1, sc, rep, seed, kind)
            ctx.require(np.abs(np.array(o.global_tensor) - G).max() < 1e-5, lambda: "%s: global_tensor differs" % what)
            q = np.array(o.orientation, float)
            ctx.require(q.shape == (4,) and abs((q ** 2).sum() - 1) < 1e-3, lambda: "%s: orientation %s" % (what, q))
            C = tensor(q / np.linalg.norm(q))[0]
            ctx.require(np.abs(np.array(o.cubatic_tensor) - C).max() < 2e-3, lambda: "%s: cubatic_tensor is not that of the orientation" % what)
            ctx.require(abs(o.order - opar(C, G)) < 2e-3, lambda: "%s: order %g is not that of the orientation, %g" % (what, o.order, opar(C, G)))
            ctx.require(np.array(o.particle_order).shape == (len(Q),) and np.abs(np.array(o.particle_order) - opar(T, G)).max() < 1e-4,
                        lambda: "%s: particle_order differs" % what)
            # replicates are independent: more of them can only do better, and one more only through the last
            ctx.require(o.order >= best, lambda: "%s: order %g, but %g with fewer replicates" % (what, o.order, best))
            if o.order == best:
                ctx.require(np.array_equal(prev, q), lambda: "%s: another orientation for the same order" % what)
            best, prev = o.order, q
            if kind in (0, 4) and t1 == 1e-4 and sc == 0.95:
                ctx.require(o.order > 0.998, lambda: "%s: order %g of a perfect system" % (what, o.order))
            o2 = freud.order.Cubatic(t0, t1, sc, rep, seed)
            o2.compute(Q)
            ctx.require(o2.order == o.order and np.array_equal(np.array(o2.orientation), np.array(o.orientation)),
                        lambda: "%s: computed twice, differs" % what)
            ctx.state()


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
