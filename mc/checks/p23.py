"""Mean squared displacements follow their definition for every trajectory."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "every trajectory of up to 5 frames over 3 positions in one dimension and 4 of 4 in two (as the particles of one or several calls), at 4 "
             "distances from the origin, in both modes; every split of 5 particles into calls; every image history over {-2,0,1} of 3 frames in 13 "
             "boxes and over two triples of up to 70000 in some; 10 random lengths up to 300; 6 array forms",
    "thorough": "as quick with trajectories of up to 7 frames and 4 positions",
}
HANG = 200


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for mode in ("window", "direct", None):
        for T in range(1, 8 if th else 6):
            for off in (0, 37.5, 400, -3000):
                yield {"c": "all", "mode": mode, "T": T, "off": off, "vals": 4 if th and T < 7 else 3}
        for box in ref.BOXES:
            for first in range(3):
                for vals in ((-2, 0, 1), (-150, 0, 40000), (-70000, 1, 3)):
                    if vals[2] == 1 or th or box in ("cube8", "generic", "neg2", "slab"):
                        yield {"c": "images", "mode": mode, "box": box, "first": first, "vals": list(vals)}
        yield {"c": "split", "mode": mode}
        for T in (1, 2, 3, 16, 31, 64, 100, 127, 200, 300):
            yield {"c": "long", "mode": mode, "T": T}
        yield {"c": "forms", "mode": mode}


def make(mode, box=None):
    kw = {} if mode is None else {"mode": mode}
    return freud.msd.MSD(**kw) if box is None else freud.msd.MSD(box, **kw)


def msd(mode, p):
    p = p.astype(float)
    T = len(p)
    if mode == "direct":
        return ((p - p[0]) ** 2).sum(-1)
    return np.array([((p[m:] - p[:T - m]) ** 2).sum(-1).mean(0) for m in range(T)])


def compare(ctx, o, mode, p, what, err=0.0):
    """err: how far stored positions may be off."""
    want = msd(mode, p)
    got = np.array(o.particle_msd, float)
    span = np.abs(p.astype(float) - p[0]).max() if p.size else 0
    tol = 1e-5 * (want + 1e-4 * span * span) + 1e-12 + 8 * err * (span + err)
    ctx.step()
    ctx.state(want.size)
    ctx.require(got.shape == want.shape, lambda: "particle_msd of shape %s, expected %s (%s)" % (got.shape, want.shape, what))
    bad = ~(np.abs(got - want) <= tol)
    ctx.require(not bad.any(), lambda: "%s: %s, trajectory %s: particle MSD %s, expected %s" % (
        mode, what, p[:8, np.nonzero(bad)[1][0]].tolist(), got[:6, np.nonzero(bad)[1][0]], want[:6, np.nonzero(bad)[1][0]]))
    m = np.array(o.msd, float)
    ctx.require(m.shape == (len(p),) and np.all(np.abs(m - want.mean(1)) <= tol.max(1)), lambda: "%s: %s: msd %s, expected %s" % (
        mode, what, m[:6], want.mean(1)[:6]))


def all_(case, ctx):
    T, off, mode = case["T"], case["off"], case["mode"]
    vals = np.array([0, 1, -2.5, 4])[:case["vals"]]
    tr = np.array(list(itertools.product(vals, repeat=T))).T        # frames, particles
    n = tr.shape[1]
    p = np.zeros((T, n, 3))
    p[:, :, 0] = tr
    p[:, :, 1] = tr[:, np.arange(n) * 7 % n] * 0.5
    p[:, :, 2] = tr[:, n - 1 - np.arange(n) * 3 % n] * (T % 2)
    p += off * np.array([1, -0.5, 0.25])
    p = np.float32(p)
    o = make(mode)
    r = o.compute(p)
    ctx.require(r is o, "compute does not return the object")
    compare(ctx, o, mode, p, "%d particles" % n)
    # one at a time, on top of each other, then anew
    for k in range(0, n, max(1, n // 9)):
        o.compute(p[:, k:k + 1], reset=True)
        compare(ctx, o, mode, p[:, k:k + 1], "one particle, after others")
    o.compute(p[:, :n // 2 + 1], reset=True)
    o.compute(p[:, n // 2 + 1:], reset=False) if n // 2 + 1 < n else None
    compare(ctx, o, mode, p, "in two calls")


def split(case, ctx):
    rs = np.random.RandomState(3)
    p = np.float32(rs.randn(6, 5, 3).cumsum(0) + 20)
    for cuts in itertools.product((0, 1), repeat=4):
        o = make(case["mode"])
        edges = [0] + [k + 1 for k in range(4) if cuts[k]] + [5]
        for order in ([list(zip(edges, edges[1:]))] + [list(zip(edges, edges[1:]))[::-1]]):
            for k, (a, b) in enumerate(order):
                o.compute(p[:, a:b], reset=k == 0)
                idx = np.concatenate([np.arange(x, y) for x, y in order[:k + 1]])
                compare(ctx, o, case["mode"], p[:, idx], "particles %s in %d calls" % (idx.tolist(), k + 1))
    if case["mode"]:
        ctx.require(case["mode"] == make(case["mode"]).mode, "mode")


def images(case, ctx):
    c = ref.Cell(case["box"])
    box = c.freud()
    rs = np.random.RandomState(5)
    hist = np.array(list(itertools.product(case["vals"], repeat=3)))       # images of 3 frames, per particle
    n = len(hist)
    im = np.zeros((3, n, 3), np.int32)
    im[:, :, 0] = hist.T * (1 if case["first"] == 0 else 0)
    im[:, :, 1] = hist[::-1].T * (1 if case["first"] < 2 else 0)
    if not c.is2d:
        im[:, :, 2] = np.roll(hist, 5, 0).T
    pw = np.float32(c.absolute(rs.rand(3, n, 3)))
    real = pw.astype(float) + im @ c.h.T
    keep = pw.copy(), im.copy()
    err = max(3e-6, 3e-7 * np.abs(im).max()) * np.abs(c.h).sum()
    for form, b in (("Box", box), ("list", list(c.spec[:6])), ("matrix", box.to_matrix())):
        if c.is2d and form == "list":
            b = [c.spec[0], c.spec[1], 0, c.spec[3], 0, 0]
        o = make(case["mode"], b)
        o.compute(pw, im)
        compare(ctx, o, case["mode"], real, "images in %s (%s)" % (case["box"], form), err)
        o.compute(pw[:, :10], im[:, :10].astype(np.int64).tolist())
        o.compute(pw[:, 10:], im[:, 10:], reset=False)
        compare(ctx, o, case["mode"], real, "images in %s, two calls" % case["box"], err)
        o.compute(np.float32(real))
        compare(ctx, o, case["mode"], np.float32(real), "unwrapped positions")
        ctx.require((pw == keep[0]).all() and (im == keep[1]).all(), "compute changed its input")
        ctx.require(o.box == box or form == "matrix", "box")
    for bad in (im[:2], im[:, :5], im[..., :2], im[0]):
        try:
            make(case["mode"], box).compute(pw, bad)
        except (ValueError, TypeError):
            continue
        ctx.fail("images of shape %s for positions of shape %s are accepted" % (bad.shape, pw.shape))


def long(case, ctx):
    rs = np.random.RandomState(case["T"])
    for off in (0, 50, 1000):
        for n in (1, 7):
            p = np.float32(rs.randn(case["T"], n, 3).cumsum(0) * 0.3 + off)
            if n == 7:
                p[:, 0] = p[0, 0]                    # at rest
                p[:, 1, :] = p[0, 1] + np.float32(np.arange(case["T"])[:, None] * [0.5, 0, -0.25])
            o = make(case["mode"])
            o.compute(p)
            compare(ctx, o, case["mode"], p, "%d frames at %g" % (case["T"], off))
            if n == 7:
                ctx.require(np.abs(np.array(o.particle_msd)[:, 0]).max() < 1e-6, lambda: "MSD %g of a particle at rest" % np.abs(
                    np.array(o.particle_msd)[:, 0]).max())


def forms(case, ctx):
    rs = np.random.RandomState(1)
    a = np.float32(rs.randn(5, 4, 3) + 3)
    big = np.zeros((10, 8, 6), np.float32)
    big[::2, ::2, ::2] = a
    ro = a.copy()
    ro.flags.writeable = False
    for x in (a, a.astype(float), a.tolist(), np.asfortranarray(a), big[::2, ::2, ::2], ro):
        o = make(case["mode"])
        o.compute(x)
        compare(ctx, o, case["mode"], a, "another array form")
        ctx.require(np.array_equal(np.asarray(x, np.float32), a), "compute changed its input")
    for bad in (a[0], a[..., :2], a[None], np.zeros((5, 4, 4), np.float32)):
        o = make(case["mode"])
        try:
            o.compute(bad)
        except (ValueError, TypeError):
            continue
        ctx.fail("positions of shape %s are accepted" % (bad.shape,))


def check(case, ctx):
    globals()[{"all": "all_"}.get(case["c"], case["c"])](case, ctx)
    ctx.traces += 1
