"""PMFTs count bonds in the frames they document and normalize by the volume elements."""
import itertools

import numpy as np

from mc import hist, ref, zoo

BOUNDS = {
    "quick": "5 two- and 8 three-dimensional boxes x 9 systems (same or other query points) x 4 kinds of orientations (angles over several turns, columns, quaternions) "
             "x 2 binnings x 4 neighbor arguments x up to 3 frames; XYZ with 4 sets of equivalent orientations and 4 shifts; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more systems, binnings and shifts",
}
HANG = 200
SYS = [("gen:7", None), ("gen:13:2", None), ("clu:9:4", None), ("gen:4:3", "gen:5:8"), ("gen:5:3", "gen:4:8"),
       ("gen:1", "gen:6:2"), ("gen:6:4", "gen:1:5"), ("gen:2", None), ("gen:4:6", None)]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    S = SYS + ([("gen:40:5", None), ("gen:22:6", "gen:15:7")] if th else [])
    for b in ref.BOXES:
        two = ref.Cell(b).is2d
        for (p, q), kind in itertools.product(S + ref.BIG.get(b, []), (("r12", "xyt", "xy") if two else ("xyz",))):
            for o in range(4):
                yield {"c": kind, "box": b, "p": p, "q": q, "o": o}


def angles(n, k, seed):
    a = np.random.RandomState(seed).rand(n) * 2 * np.pi
    return a + 2 * np.pi * np.array([0, -1, 3, -2])[(np.arange(n) + k) % 4] if k else a


def forms(a, k):
    """The same orientations in another form: angles, a column of them, or quaternions."""
    n = len(a)
    if k == 0:
        return a
    if k == 1:
        return a.reshape(-1, 1)
    z = zoo.zquats(a).astype(float)
    return -z if k == 3 else z


def wrapped(x):
    return x % (2 * np.pi)


def bonds(s, nbr, form):
    """The argument for neighbors, and the bonds it stands for: i, j, vectors."""
    q = s.p if s.q is None else s.q
    if form == "default":
        arg = None
    else:
        arg = dict(nbr)
        if form == "list":
            arg = freud.locality.AABBQuery(s.box, s.p).query(q, arg).toNeighborList()
    if form == "near":
        arg = {"num_neighbors": 3, "exclude_ii": s.q is None}
        nl = freud.locality.AABBQuery(s.box, s.p).query(q, arg).toNeighborList()
        return arg, (np.array(nl.query_point_indices, int), np.array(nl.point_indices, int), np.array(nl.vectors, float))
    i, j, v, d = ref.ball_pairs(s.cell, q, s.p, nbr["r_max"] * 1.001 + 1e-4)
    if s.q is None:
        k = i != j
        i, j, v, d = i[k], j[k], v[k], d[k]
    return arg, (i, j, v)


AX = {"r12": ("r", "t1", "t2"), "xyt": ("x", "y", "t"), "xy": ("x", "y")}


def two(case, ctx):
    kind = case["c"]
    s0 = zoo.System(case["box"], case["p"], case["q"])
    n, m = s0.n, s0.m
    scale = float(max(s0.cell.L))
    half = s0.half
    for binning, form in itertools.product(range(3 if ctx.thorough else 2), ("ball", "default", "list", "near")):
        if form == "near" and n < 5:
            continue
        R = np.float32(0.93 * half)
        if kind == "r12":
            nb = [(4, 5, 3), (3, 2, 7), (11, 1, 4)][binning]
            o = freud.pmft.PMFTR12(R, nb)
            axes = [(0.0, float(R), nb[0], False), (0, 2 * np.pi, nb[1], True), (0, 2 * np.pi, nb[2], True)]
        else:
            X, Y = [np.float32(x * half) for x in [(0.75, 0.5), (0.4, 0.8), (0.3, 0.3)][binning]]
            nb = [(4, 5, 3), (1, 6, 7), (9, 1, 2)][binning]
            R = np.sqrt(X ** 2 + Y ** 2)
            axes = [(-float(X), float(X), nb[0], False), (-float(Y), float(Y), nb[1], False)]
            if kind == "xyt":
                o = freud.pmft.PMFTXYT(X, Y, nb)
                axes.append((0, 2 * np.pi, nb[2], True))
            else:
                o = freud.pmft.PMFTXY(X, Y, nb[:2])
        nbr = {"r_max": float(R) if form == "default" else 0.9 * float(R) if kind != "r12" else float(R), "exclude_ii": s0.q is None}
        lo = hi = 0
        frames = 2 if binning == 0 else 1
        tot = [0, 0]
        for f in range(frames):
            s = s0 if f == 0 else zoo.System(case["box"], "gen:%d:%d" % (n, 31), None if case["q"] is None else "gen:%d:%d" % (m, 32))
            k = case["o"]
            a = np.float32(angles(n, k, 3 + f)).astype(float)
            b = a if s.q is None else np.float32(angles(m, k, 5 + f)).astype(float)
            arg, (i, j, v) = bonds(s, nbr, form)
            kw = {"neighbors": arg, "reset": f == 0, **s.qp()}
            y = (s.box, s.p) if f == 0 else freud.locality.AABBQuery(s.box, s.p)
            fa, fb = forms(a, k), forms(b, k)
            if kind == "xy":
                o.compute(y, fb, **kw)
            elif s.q is None and binning == 0:
                o.compute(y, fa, **kw)
            else:
                o.compute(y, fa, query_orientations=fb, **kw)
            ctx.step()
            r = np.sqrt((v ** 2).sum(-1))
            cut = float(nbr["r_max"]) if form != "near" else np.inf
            eps = 3e-6 * scale
            rows = []
            phi = np.arctan2(v[:, 1], v[:, 0])
            for x in range(len(i)):
                if kind != "r12" and abs(r[x] - cut) < eps:
                    rows.append(None)
                    continue
                if r[x] > cut + (eps if kind == "r12" else 0):
                    continue
                ta = 2e-6 * (3 + abs(a[j[x]]) + abs(b[i[x]])) + eps / r[x]
                if kind == "r12":
                    rows.append([(r[x], eps), (wrapped(a[j[x]] - phi[x]), ta), (wrapped(b[i[x]] - phi[x] - np.pi), ta)])
                    continue
                c, t = np.cos(-b[i[x]]), np.sin(-b[i[x]])
                te = eps + 2e-6 * (3 + abs(b[i[x]])) * r[x]
                row = [(c * v[x, 0] - t * v[x, 1], te), (t * v[x, 0] + c * v[x, 1], te)]
                if kind == "xyt":
                    row.append((wrapped(a[j[x]] - phi[x] - np.pi), ta))
                rows.append(row)
            if None in rows:
                # a bond at the cutoff up to rounding: choose another radius
                break
            l, h, t = hist.bounds(rows, axes)
            lo, hi, tot = lo + l, hi + h, [tot[0] + t[0], tot[1] + t[1]]
        else:
            what = "PMFT%s of %s/%s in %s, %s neighbors, orientations %d, bins %s" % (
                kind.upper(), case["p"], case["q"], case["box"], form, case["o"], nb)
            got = np.array(o.bin_counts)
            hist.check(got, (lo, hi, tot), ctx, what)
            width = [(x[1] - x[0]) / x[2] for x in axes]
            if kind == "r12":
                rc = (np.arange(nb[0]) + 0.5) * width[0]
                jac = rc[:, None, None] * width[0] * width[1] / nb[2]
            elif kind == "xyt":
                jac = width[0] * width[1] / nb[2]
            else:
                jac = width[0] * width[1]
            normalized(o, got, s0.cell.volume / (m * n * frames) / jac, ctx, what)
            ctx.state()


r12 = xyt = xy = two


def normalized(o, counts, factor, ctx, what):
    want = counts * factor
    pcf, pm = np.array(o._pcf, float), np.array(o.pmft, float)
    pcf = pcf.reshape(want.shape)
    ctx.require(np.all(np.abs(pcf - want) <= 1e-4 * want), lambda: "%s: pair correlation %s, expected %s" % (
        what, pcf[np.abs(pcf - want) > 1e-4 * want][:3], want[np.abs(pcf - want) > 1e-4 * want][:3]))
    pm = pm.reshape(want.shape)
    ctx.require(np.all(np.isposinf(pm) == (counts == 0)), lambda: "%s: pmft is infinite elsewhere than in empty bins" % what)
    k = counts > 0
    ctx.require(np.all(np.abs(pm[k] + np.log(want[k])) < 2e-4), lambda: "%s: pmft is not -log of the pair correlation" % what)


def qrot(q, v):
    """Rotation of vectors v by unit quaternions q."""
    w, u = q[..., :1], q[..., 1:]
    return (w * w - (u * u).sum(-1, keepdims=True)) * v + 2 * w * np.cross(u, v) + 2 * (u * v).sum(-1, keepdims=True) * u


def conj(q):
    return q * np.array([1, -1, -1, -1])


S = np.sqrt(.5)
EQ = [None, np.array([[1, 0, 0, 0], [0, 0, 0, 1.0]]),
      np.array([[1, 0, 0, 0], [S, 0, 0, S], [S, S, 0, 0], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, 0.5]]),
      np.array([[0.8, 0, 0.6, 0]])]


def xyz(case, ctx):
    s0 = zoo.System(case["box"], case["p"], case["q"])
    n, m, half = s0.n, s0.m, s0.half
    scale = float(max(s0.cell.L))
    eps = 4e-6 * scale
    shifts = [None, [0.3 * half, -0.2 * half, 0.1 * half], [-0.9 * half, 0.5 * half, 1.1 * half], [0, 0, -0.6 * half]]
    for binning, form, sh in itertools.product(range(2), ("ball", "default", "list", "near"), range(4)):
        if form == "near" and n < 5 or (sh > 1 and binning):
            continue
        X = [np.float32(x * half) for x in [(0.5, 0.4, 0.6), (0.3, 0.7, 0.45)][binning]]
        nb = [(3, 4, 5), (6, 2, 3)][binning]
        R = float(np.sqrt(sum(float(x) ** 2 for x in X)))
        shift = np.array(shifts[sh] or [0, 0, 0], np.float32).astype(float)
        kw = {} if shifts[sh] is None else {"shiftvec": shifts[sh]}
        o = freud.pmft.PMFTXYZ(*X, nb, **kw)
        axes = [(-float(x), float(x), k, False) for x, k in zip(X, nb)]
        eq = EQ[case["o"]]
        E = np.array([[1.0, 0, 0, 0]]) if eq is None else eq
        nbr = {"r_max": R if form == "default" else 0.93 * half, "exclude_ii": s0.q is None}
        lo = hi = 0
        tot = [0, 0]
        frames = 2 if binning == 0 and sh < 2 else 1
        for f in range(frames):
            s = s0 if f == 0 else zoo.System(case["box"], "gen:%d:%d" % (n, 31), None if case["q"] is None else "gen:%d:%d" % (m, 32))
            Q = zoo.quats(m, 4 + f)
            if case["o"] == 1:
                Q = Q * np.float32([1, -1])[np.arange(m) % 2][:, None]
            q = s.p if s.q is None else s.q
            y = (s.box, s.p) if f == 0 else freud.locality.AABBQuery(s.box, s.p)
            if form in ("list", "near"):
                arg = {"num_neighbors": 3, "exclude_ii": s.q is None} if form == "near" else nbr
                arg = freud.locality.AABBQuery(s.box, s.p).query(q, arg).toNeighborList()
                i, v = np.array(arg.query_point_indices, int), np.array(arg.vectors, float) - shift
            else:
                arg = None if form == "default" else nbr
                i, j, v, d = ref.ball_pairs(s.cell, q.astype(float) + shift, s.p, nbr["r_max"] + 2 * eps)
                k = np.abs(d - nbr["r_max"]) > 2 * eps if form == "ball" else d < np.inf
                if not k.all():
                    break
                k &= d < nbr["r_max"] if form == "ball" else d < np.inf
                if s.q is None:
                    k &= i != j
                i, v = i[k], v[k]
            if binning == 1 and s.q is None:
                args = {"query_points": s.p}
                if form in ("ball", "default"):
                    # given the points themselves, own points count unless excluded
                    args = {}
            else:
                args = s.qp()
            o.compute(y, Q, equiv_orientations=eq, neighbors=arg, reset=f == 0, **args)
            ctx.step()
            b = qrot(conj(Q[i].astype(float)), v) if len(i) else np.zeros((0, 3))
            rows = [[(c, eps) for c in x] for e in E for x in qrot(np.broadcast_to(e, (len(b), 4)), b)]
            l, h, t = hist.bounds(rows, axes)
            lo, hi, tot = lo + l, hi + h, [tot[0] + t[0], tot[1] + t[1]]
        else:
            what = "PMFTXYZ of %s/%s in %s, %s neighbors, equivalents %d, shift %s, bins %s" % (
                case["p"], case["q"], case["box"], form, case["o"], shifts[sh], nb)
            got = np.array(o.bin_counts)
            hist.check(got, (lo, hi, tot), ctx, what)
            jac = np.prod([(x[1] - x[0]) / x[2] for x in axes])
            normalized(o, got, s0.cell.volume / (m * n * frames * len(E)) / jac, ctx, what)
            ctx.state()


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
