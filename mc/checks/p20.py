"""Bond diagrams, angular separations and bond projections follow their definitions."""
import itertools

import numpy as np

from mc import hist, ref, zoo
from mc.checks.p19 import conj, qrot

BOUNDS = {
    "quick": "13 boxes x 9 systems (same or other query points) x 4 neighbor arguments: bond diagrams in 4 modes x 4 kinds of "
             "orientations x 3 binnings x up to 3 frames; separations from neighbors and from every pair of 4 sets of global orientations, and "
             "projections on 1 to 4 vectors, for 7 symmetry groups; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more systems and binnings",
}
HANG = 200
SYS = [("gen:7", None), ("gen:13:2", None), ("clu:9:4", None), ("gen:4:3", "gen:5:8"), ("gen:5:3", "gen:4:8"),
       ("gen:1", "gen:6:2"), ("gen:6:4", "gen:1:5"), ("gen:2", None), ("gen:4:6", None)]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    S = SYS + ([("gen:40:5", None), ("gen:22:6", "gen:15:7"), ("lat:2:0.3", "gen:9:2")] if th else [])
    for b in ref.BOXES:
        for p, q in S + ref.BIG.get(b, []):
            for mode in ("bod", "lbod", "obcd", "oocd"):
                yield {"c": "diagram", "box": b, "p": p, "q": q, "mode": mode}
            for g in range(7):
                yield {"c": "symmetry", "box": b, "p": p, "q": q, "g": g}
        # coincident points: their bonds have no direction, but orientations have
        yield {"c": "diagram", "box": b, "p": "dup:6", "q": None, "mode": "oocd"}
    for g in range(7):
        for n in (1, 2, 5, 30):
            yield {"c": "global", "n": n, "g": g}


def qmul(a, b):
    s = a[..., :1] * b[..., :1] - (a[..., 1:] * b[..., 1:]).sum(-1, keepdims=True)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([s, v], -1)


def group(gens):
    G = [np.array([1.0, 0, 0, 0]), np.array([-1.0, 0, 0, 0])]
    k = 0
    while k < len(G):
        for g in gens:
            x = qmul(G[k], g)
            if not any(np.abs(x - y).max() < 1e-9 for y in G):
                G.append(x)
        k += 1
    return np.array(G)


S2 = np.sqrt(.5)
GEN = [[], [(0, 0, 0, 1)], [(S2, 0, 0, S2)], [(0.5, 0, 0, np.sqrt(.75))], [(0, 0, 0, 1), (0, 1, 0, 0)],
       [(0.5, 0.5, 0.5, 0.5), (0, 1, 0, 0)], [(S2, 0, 0, S2), (0.5, 0.5, 0.5, 0.5)]]


def the_group(k):
    G = group([np.array(g, float) for g in GEN[k]])
    # starting with another element than the identity changes nothing
    return G if k % 2 == 0 else np.concatenate([G[3:], G[:3]]) if len(G) > 3 else G[::-1]


def some_quats(n, k, seed):
    """Orientations: general, about z only, few and repeated with both signs, or none."""
    q = zoo.quats(n, seed)
    if k == 1:
        q = zoo.zquats(np.random.RandomState(seed).rand(n) * 12 - 6)
    if k == 2:
        q = zoo.quats(3, seed)[np.arange(n) % 3] * np.float32([1, -1])[np.arange(n) // 3 % 2][:, None]
    return q


def neighbors(s, form):
    q = s.p if s.q is None else s.q
    ex = s.q is None
    import freud
    nbr = {"num_neighbors": min(3, s.n - ex), "exclude_ii": ex} if form == "near" else {"r_max": 0.93 * s.half, "exclude_ii": ex}
    nl = freud.locality.AABBQuery(s.box, s.p).query(q, nbr).toNeighborList()
    return nbr, nl


def diagram(case, ctx):
    mode = case["mode"]
    s0 = zoo.System(case["box"], case["p"], case["q"])
    scale = float(max(s0.cell.L))
    for kind, form in itertools.product(range(4), ("ball", "near", "list", "filtered")):
        if form == "near" and s0.n < 2:
            continue
        for nb in [(5, 4), (2, 3), (12, 7)][:1 if kind else 3] + ([(40, 2), (3, 31)] if ctx.thorough else []):
            o = freud.environment.BondOrder(nb, mode)
            axes = [(0, 2 * np.pi, nb[0], True), (0, np.pi, nb[1], False)]
            lo = hi = 0
            tot = [0, 0]
            frames = 3 if nb == (5, 4) and kind == 0 else 1
            for f in range(frames):
                s = s0 if f == 0 else zoo.System(case["box"], "gen:%d:%d" % (s0.n, 40 + f), None if case["q"] is None else "gen:%d:%d" % (s0.m, 50 + f))
                nbr, nl = neighbors(s, form)
                if form == "filtered":
                    nl.filter(np.arange(len(nl)) % 3 != 1)
                arg = nl if form in ("list", "filtered") else nbr
                A = some_quats(s.n, kind, 2 + f)
                B = A if s.q is None else some_quats(s.m, kind, 6 + f)
                kw = {"neighbors": arg, "reset": f == 0, **s.qp()}
                if kind == 3:
                    A, B = [np.tile([1.0, 0, 0, 0], (k, 1)) for k in (s.n, s.m)]
                    o.compute((s.box, s.p), **kw)
                elif s.q is None and f == 0:
                    o.compute((s.box, s.p), A, **kw)
                else:
                    if s.q is None:
                        B = some_quats(s.m, kind, 9)
                    o.compute((s.box, s.p), A, query_orientations=B, **kw)
                ctx.step()
                i, j = np.array(nl.query_point_indices, int), np.array(nl.point_indices, int)
                v = np.array(nl.vectors, float)
                a, b = A[j].astype(float), B[i].astype(float)
                rel = 2e-6 + 2e-6 * scale / np.maximum(np.linalg.norm(v, axis=1), 1e-9)
                if mode == "lbod":
                    v = qrot(conj(a), v)
                elif mode == "obcd":
                    v = qrot(b, qrot(conj(a), v))
                elif mode == "oocd":
                    v = qrot(conj(a), qrot(b, np.tile([0, 0, 1.0], (len(v), 1))))
                    rel = np.full(len(v), 2e-6)
                r = np.linalg.norm(v, axis=1)
                sphi = np.hypot(v[:, 0], v[:, 1]) / r
                theta = np.arctan2(v[:, 1], v[:, 0]) % (2 * np.pi)
                phi = np.arccos(np.clip(v[:, 2] / r, -1, 1))
                tt = np.where(sphi > 2e-3, rel / np.maximum(sphi, 1e-9), 0)
                tp = np.where(sphi > 2e-3, rel + 1e-6 / np.maximum(sphi, 1e-9), 4e-3)
                pole = sphi <= 2e-3
                rows = []
                for x in range(len(v)):
                    p = min(phi[x], np.pi - 1.01 * tp[x])   # pi itself belongs to the last bin
                    p = max(p, 1.01 * tp[x])
                    rows.append([(theta[x], tt[x]), (p, tp[x])])
                if pole.any():
                    # the azimuth of a bond along z is arbitrary
                    l, h, t = hist.bounds([w for w, k in zip(rows, pole) if not k], axes)
                    l2, h2, t2 = hist.bounds([[(0.0, 0.0), w[1]] for w, k in zip(rows, pole) if k], axes)
                    h = h + h2.sum(0)[None, :]
                    t = [t[0] + t2[0], t[1] + t2[1]]
                else:
                    l, h, t = hist.bounds(rows, axes)
                lo, hi, tot = lo + l, hi + h, [tot[0] + t[0], tot[1] + t[1]]
            what = "BondOrder(%s, %s) of %s/%s in %s, %s neighbors, orientations %d, %d frames" % (
                nb, mode, case["p"], case["q"], case["box"], form, kind, frames)
            got = np.array(o.bin_counts)
            hist.check(got, (lo, hi, tot), ctx, what)
            e = np.linspace(0, np.pi, nb[1] + 1)
            sa = 2 * np.pi / nb[0] * (np.cos(e[:-1]) - np.cos(e[1:]))
            want = got / sa / frames
            bo = np.array(o.bond_order, float)
            ctx.require(bo.shape == want.shape and np.all(np.abs(bo - want) <= 1e-4 * want),
                        lambda: "%s: bond_order is not counts per solid angle and frame" % what)
            ctx.state()


def angle_range(s, e=6e-7):
    """Least and greatest angle for scalar parts known up to float rounding."""
    return 2 * np.arccos(np.clip(s + e, -1, 1)) - 2e-6, 2 * np.arccos(np.clip(s - e, -1, 1)) + 2e-6


def moved(G):
    """The same symmetry, of a particle that is defined turned: equivalents are meant relative to the first."""
    t = np.broadcast_to(np.array([0.6, 0.48, -0.64, 0.0]), np.shape(G))
    return qmul(t, np.asarray(G, float)).astype(np.float32)


def separation(r, q, G):
    """Scalar part of the smallest rotation from r to an equivalent of q: rows of r and q."""
    return np.max([qmul(qmul(q, np.broadcast_to(e, q.shape)), conj(r))[..., 0] for e in G], axis=0)


def symmetry(case, ctx):
    s = zoo.System(case["box"], case["p"], case["q"])
    G = the_group(case["g"])
    for form, kind in itertools.product(("ball", "near", "list", "filtered"), range(3)):
        if form == "near" and s.n < 2:
            continue
        nbr, nl = neighbors(s, form)
        if form == "filtered":
            nl.filter(np.arange(len(nl)) % 3 != 1)
        arg = nl if form in ("list", "filtered") else nbr
        A = some_quats(s.n, kind, 3)
        B = A if s.q is None and kind < 2 else some_quats(s.m, kind, 8)
        what = "of %s/%s in %s, %s neighbors, orientations %d, group %d" % (case["p"], case["q"], case["box"], form, kind, case["g"])
        F = moved(G) if kind == 2 else G
        eps = 2e-6 if kind == 2 else 6e-7
        o = freud.environment.AngularSeparationNeighbor()
        kw = {} if B is A else {"query_orientations": B}
        o.compute((s.box, s.p), A, equiv_orientations=F, neighbors=arg, **s.qp(), **kw)
        ctx.step()
        same_list(o.nlist, nl, ctx, "angular separations " + what)
        i, j = np.array(o.nlist.query_point_indices, int), np.array(o.nlist.point_indices, int)
        lo, hi = angle_range(separation(B[i].astype(float), A[j].astype(float), G), eps)
        got = np.array(o.angles, float)
        ctx.require(got.shape == lo.shape and np.all((lo <= got) & (got <= hi)), lambda: "angles %s: %s, expected %s" % (
            what, got[~((lo <= got) & (got <= hi))][:3], ((lo + hi) / 2)[~((lo <= got) & (got <= hi))][:3]))
        if kind == 1:
            pv = np.array([[1, 2, 3], [0, 0, -1], [2.5, -1, 0], [0.1, 0.1, 0.1]], np.float32)[:1 + case["g"] % 4]
        else:
            pv = np.array([[-1, 0.5, 0], [0, 0, 4]], np.float32)
        o = freud.environment.LocalBondProjection()
        o.compute((s.box, s.p), A, pv, equiv_orientations=F, neighbors=arg, **s.qp())
        ctx.step()
        same_list(o.nlist, nl, ctx, "bond projections " + what)
        i, j = np.array(o.nlist.query_point_indices, int), np.array(o.nlist.point_indices, int)
        v = np.array(o.nlist.vectors, float)
        d = np.linalg.norm(v, axis=1)
        lb = qrot(conj(A[j].astype(float)), v)
        P = np.array([[qrot(e, x.astype(float)) for x in pv] for e in G])      # group, vector, 3
        want = np.einsum("gkx,bx->gbk", P, lb).max(0)
        tol = 1e-5 * (np.linalg.norm(pv, axis=1)[None, :] * d[:, None] + 1e-6)
        got = np.array(o.projections, float)
        ctx.require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), lambda: "projections %s: differ by %g" % (
            what, np.abs(got - want).max() if got.shape == want.shape else -1))
        got = np.array(o.normed_projections, float)
        ctx.require(got.shape == want.shape and np.all(np.abs(got - want / d[:, None]) <= tol / d[:, None]), lambda: "normed projections %s differ" % what)
        ctx.state(2)


def same_list(a, b, ctx, what):
    x, y = ref.nlist_arrays(a), ref.nlist_arrays(b)
    kx, ky = [np.lexsort(np.concatenate([np.round(z[2], 4).T[::-1], z[1][None], z[0][None]])) for z in (x, y)]
    ctx.require(len(x[0]) == len(y[0]) and np.array_equal(x[0][kx], y[0][ky]) and np.array_equal(x[1][kx], y[1][ky]),
                lambda: "%s: nlist is not the bonds used" % what)


def globals_(case, ctx):
    G = the_group(case["g"])
    for kind, m, k2 in itertools.product(range(3), (1, 3, 8), range(3)):
        A, B = some_quats(case["n"], kind, 3), some_quats(m, k2, 11)
        if m == 3:
            B = np.concatenate([B, A[:2]])
        if m == 8:
            # equivalents of the orientations themselves: no separation at all
            B = np.array([qmul(A[x % len(A)].astype(float), G[(3 * x) % len(G)]) for x in range(m)])
        o = freud.environment.AngularSeparationGlobal()
        F = moved(G) if k2 == 2 else G
        o.compute(B, A, F)
        ctx.step()
        B = np.float32(B).astype(float)
        n, m2 = len(A), len(B)
        r = np.repeat(A.astype(float), m2, 0)
        q = np.tile(B, (n, 1))
        lo, hi = [x.reshape(n, m2) for x in angle_range(separation(r, q, G), 2e-6 if k2 == 2 else 6e-7)]
        got = np.array(o.angles, float)
        what = "%d orientations (%d) against %d global ones (%d), group %d" % (n, kind, m2, k2, case["g"])
        ctx.require(got.shape == lo.shape and np.all((lo <= got) & (got <= hi)), lambda: "angles of %s: %s, expected %s" % (
            what, got, (lo + hi) / 2))
        ctx.state()


def check(case, ctx):
    {"diagram": diagram, "symmetry": symmetry, "global": globals_}[case["c"]](case, ctx)
    ctx.traces += 1
