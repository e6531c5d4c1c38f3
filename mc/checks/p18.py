"""Clusters are the connected components; their properties follow the definitions."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "every graph on up to 5 points, and every graph on 6 points with up to 4 bonds, as lists in three "
             "directions of the bonds; 13 boxes x 7 systems x 5 radii or numbers of neighbors x list or arguments; properties of "
             "every labeling of 5 points, and of the clusters of all systems, with 3 sets of masses and every set of periodic directions; each also on two systems of 260 to 300 points; 5 sets of clusters of more than 65536 points",
    "thorough": "as quick with every graph on 6 points and more systems",
}
HANG = 200
SYS = ["gen:14", "gen:40:2", "clu:18:4", "lat:3", "bdy", "dup:9", "gen:1"]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3, 4, 5):
        E = list(itertools.combinations(range(n), 2))
        for lo in range(0, 2 ** len(E), 128):
            yield {"c": "graph", "n": n, "m": [lo, min(2 ** len(E), lo + 128)]}
    E = 15
    pick = [m for m in range(2 ** E) if th or bin(m).count("1") <= 4]
    for k in range(0, len(pick), 128):
        yield {"c": "graph", "n": 6, "ms": pick[k:k + 128]}
    for b in ref.BOXES:
        for p in SYS + (["gen:150:5", "lat:2:0.5", "clu:60:2"] if th else []) + [x[0] for x in ref.BIG.get(b, [])]:
            yield {"c": "system", "box": b, "p": p}
            yield {"c": "props", "box": b, "p": p}
    for b in ("cube8", "generic", "sq", "neg2"):
        for k in range(5):
            yield {"c": "labels", "box": b, "first": k}
    for k in range(len(MANY)):
        yield {"c": "many", "k": k}
    for b in ref.BOXES:
        for per in itertools.product((True, False), repeat=2 if ref.Cell(b).is2d else 3):
            yield {"c": "com", "box": b, "per": per}


def components(n, i, j):
    """Reference: label of each point, largest component first, then by the least point."""
    lab = list(range(n))
    adj = [[] for _ in range(n)]
    for a, b in zip(i, j):
        adj[int(a)].append(int(b))
        adj[int(b)].append(int(a))
    seen = [False] * n
    comps = []
    for s in range(n):
        if seen[s]:
            continue
        seen[s] = True
        todo, comp = [s], []
        while todo:
            a = todo.pop()
            comp.append(a)
            for b in adj[a]:
                if not seen[b]:
                    seen[b] = True
                    todo.append(b)
        comps.append(sorted(comp))
    comps.sort(key=lambda c: (-len(c), c[0]))
    for k, c in enumerate(comps):
        for a in c:
            lab[a] = k
    return np.array(lab), comps


def verify(cl, n, i, j, keys, ctx, what):
    lab, comps = components(n, i, j)
    ctx.require(cl.num_clusters == len(comps), lambda: "%s: %d clusters, expected %d" % (
        what, cl.num_clusters, len(comps)))
    got = np.array(cl.cluster_idx)
    ctx.require(np.array_equal(got, lab), lambda: "%s: cluster_idx %s, expected %s" % (
        what, got[:12].tolist(), lab[:12].tolist()))
    k = np.arange(n) if keys is None else keys
    want = [[int(k[a]) for a in c] for c in comps]
    got = [list(map(int, c)) for c in cl.cluster_keys]
    ctx.require(got == want, lambda: "%s: cluster_keys %s, expected %s" % (what, got[:4], want[:4]))
    ctx.state()
    return lab


def graph(case, ctx):
    n = case["n"]
    box = freud.box.Box.cube(100)
    p = np.array([[3 * a, (a * a) % 5, 0] for a in range(n)], np.float32)
    E = np.array(list(itertools.combinations(range(n), 2)), int).reshape(-1, 2)
    aq = freud.locality.AABBQuery(box, p)
    cl = freud.cluster.Cluster()
    keys = np.array([7, 7, 3, 4000000000, 0, 3], np.uint32)[:n]
    for m in case["ms"] if "ms" in case else range(*case["m"]):
        e = E[[k for k in range(len(E)) if m >> k & 1]]
        for d in range(3 if len(e) else 1):
            # every bond once in some direction, or in both
            s = e[:, ::-1] if d == 1 else np.concatenate([e, e[:, ::-1]]) if d == 2 else e
            s = s[np.lexsort((s[:, 1], s[:, 0]))]
            if len(s):
                nl = freud.locality.NeighborList.from_arrays(n, n, s[:, 0], s[:, 1], p[s[:, 1]] - p[s[:, 0]])
                arg = nl
            else:
                arg = {"r_max": 1e-3}
            kk = keys if d == 1 else None
            cl.compute(aq, keys=kk, neighbors=arg)
            ctx.step()
            verify(cl, n, s[:, 0], s[:, 1], kk, ctx, "graph %d on %d points, direction %d" % (m, n, d))


def system(case, ctx):
    s = zoo.System(case["box"], case["p"])
    n = s.n
    keys = s.keys
    for nbr in [{"r_max": f * s.half} for f in (0.1, 0.3, 0.5, 0.9)] + [
            {"num_neighbors": k} for k in (1, 2, 5)] + [{"r_max": 0.8 * s.half, "r_min": 0.4 * s.half}]:
        for form in ("aabb", "link", "cell", "raw"):
            if form == "cell" and (n < 2 or "num_neighbors" in nbr and not ctx.thorough):
                continue
            sy = s.system(freud, form)
            aq = freud.locality.AABBQuery(s.box, s.p)
            nl = aq.query(s.p, dict(nbr, exclude_ii=True)).toNeighborList()
            i, j = np.array(nl.query_point_indices), np.array(nl.point_indices)
            if "num_neighbors" in nbr:
                args = [nl]
            elif form == "cell" or form == "raw":
                args = [dict(nbr, exclude_ii=True)]
            else:
                args = [nbr, dict(nbr, exclude_ii=False), nl]
            for a in args:
                for k in (None, keys):
                    o = freud.cluster.Cluster()
                    try:
                        o.compute(sy, keys=k, neighbors=a)
                    except RuntimeError:
                        if form != "cell":
                            raise
                        continue
                    ctx.step()
                    verify(o, n, i, j, k, ctx, "%s in %s (%s, %s)" % (case["p"], case["box"], nbr, form))
        # the order of the points does not matter: partition of the permuted system
        perm = np.random.RandomState(3).permutation(n)
        if "num_neighbors" not in nbr:
            o2 = freud.cluster.Cluster().compute((s.box, s.p[perm]), neighbors=nbr)
            lab, _ = components(n, i, j)
            a, b = lab[perm], np.array(o2.cluster_idx)
            ctx.require(len(set(zip(a.tolist(), b.tolist()))) == len(set(a.tolist())) == len(set(b.tolist())),
                        "clusters of the permuted points differ")


def circ(cell, per, p, m):
    """Center of mass: circular mean in periodic directions, plain mean in others; and how sharp it is."""
    f = cell.frac(p)
    z = (m[:, None] * np.exp(2j * np.pi * f)).sum(0) / m.sum()
    c = (m[:, None] * f).sum(0) / m.sum()
    sharp = 1.0
    for a in range(cell.dim):
        if per[a]:
            sharp = min(sharp, abs(z[a]))
            c[a] = np.angle(z[a]) / (2 * np.pi) % 1
    return cell.absolute(c), sharp


def fdiff(cell, per, v):
    """v wrapped in periodic directions, and how far its fractions stay from one half."""
    f = np.asarray(v, float) @ cell.hinv.T
    margin = 1.0
    for a in range(cell.dim):
        if per[a]:
            f[..., a] -= np.round(f[..., a])
            if f.size:
                margin = min(margin, float(0.5 - np.abs(f[..., a]).max()))
    return f @ cell.h.T, margin


def properties(cell, per, box, p, lab, masses, ctx, what):
    o = freud.cluster.ClusterProperties()
    o.compute((box, p), lab, masses)
    ctx.step()
    m = np.ones(len(p)) if masses is None else np.asarray(masses, np.float32).astype(float)
    K = int(lab.max()) + 1
    scale = float(max(cell.L))
    shapes = {"centers": (K, 3), "centers_of_mass": (K, 3), "gyrations": (K, 3, 3), "inertia_tensors": (K, 3, 3),
              "sizes": (K,), "cluster_masses": (K,), "radii_of_gyration": (K,)}
    R = {}
    for k, sh in shapes.items():
        R[k] = np.array(getattr(o, k), float)
        ctx.require(R[k].shape == sh, lambda: "%s: %s has shape %s" % (what, k, R[k].shape))
    for c in range(K):
        sel = lab == c
        ctx.require(R["sizes"][c] == sel.sum(), lambda: "%s: size of cluster %d" % (what, c))
        ctx.require(abs(R["cluster_masses"][c] - m[sel].sum()) <= 1e-5 * (1 + m[sel].sum()),
                    lambda: "%s: mass %g of cluster %d, expected %g" % (what, R["cluster_masses"][c], c, m[sel].sum()))
        if not sel.any():
            continue
        q, mm = p[sel].astype(float), m[sel]
        for name, w in (("centers", np.ones(len(q))), ("centers_of_mass", mm)):
            want, sharp = circ(cell, per, q, w)
            if sharp > 1e-3:
                err, _ = fdiff(cell, per, R[name][c] - want)
                ctx.require(np.abs(err).max() <= 3e-6 * scale / sharp, lambda: "%s: %s of cluster %d: %s, expected %s" % (
                    what, name, c, R[name][c].tolist(), want.tolist()))
                f = cell.frac(R[name][c])
                ctx.require(all(-1e-5 <= f[a] <= 1 + 1e-5 for a in range(cell.dim) if per[a]),
                            lambda: "%s: %s of cluster %d outside the box" % (what, name, c))
        d, mg1 = fdiff(cell, per, q - R["centers_of_mass"][c])
        g, mg2 = fdiff(cell, per, q - R["centers"][c])
        if mg1 > 1e-4:
            I = np.einsum("i,ijk->jk", mm, (d ** 2).sum(-1)[:, None, None] * np.eye(3) - d[:, :, None] * d[:, None, :])
            t = 1e-5 * (scale ** 2) * mm.sum()
            ctx.require(np.abs(R["inertia_tensors"][c] - I).max() <= t, lambda: "%s: inertia tensor of cluster %d: %s, expected %s" % (
                what, c, R["inertia_tensors"][c].tolist(), I.tolist()))
            rg = np.sqrt((mm * (d ** 2).sum(-1)).sum() / mm.sum())
            # the root of a small difference of squares
            ctx.require(abs(R["radii_of_gyration"][c] ** 2 - rg ** 2) <= 1e-5 * scale ** 2, lambda: "%s: radius of gyration of cluster %d: %g, expected %g" % (
                what, c, R["radii_of_gyration"][c], rg))
        if mg2 > 1e-4:
            G = (g[:, :, None] * g[:, None, :]).mean(0)
            ctx.require(np.abs(R["gyrations"][c] - G).max() <= 1e-5 * scale ** 2, lambda: "%s: gyration tensor of cluster %d: %s, expected %s" % (
                what, c, R["gyrations"][c].tolist(), G.tolist()))
        ctx.state()


MANY = [[2, 9, 65540, 300], [300, 65536, 65535, 65537], [1] * 66000 + [2], [2, 33000, 40000, 3], [300] * 230 + [70000]]


def many(case, ctx):
    """More than 65536 points: large clusters, and many of them."""
    sizes = MANY[case["k"]]
    n = sum(sizes)
    rs = np.random.RandomState(case["k"])
    label = rs.permutation(np.repeat(np.arange(len(sizes)), sizes))
    order = np.argsort(label, kind="stable")
    a, b = order[:-1], order[1:]
    same = label[a] == label[b]
    a, b = a[same], b[same]
    if case["k"] % 2:
        a, b = np.r_[a, b], np.r_[b, a]
    o = np.lexsort((b, a))
    a, b = a[o], b[o]
    cell = ref.Cell("cube8")
    box = cell.freud()
    p = ((label % 5 - 2)[:, None] + rs.rand(n, 3) * 0.5).astype(np.float32)
    nl = freud.locality.NeighborList.from_arrays(n, n, a, b, p[b] - p[a] + np.float32(1e-3))
    cl = freud.cluster.Cluster()
    cl.compute((box, p), neighbors=nl)
    ctx.step()
    lab = verify(cl, n, a, b, None, ctx, "%d points in clusters of %s" % (n, sorted(set(sizes))))
    m = (1 + np.arange(n) % 7).astype(np.float32)
    for mass in (None, m):
        q = freud.cluster.ClusterProperties()
        q.compute((box, p), lab, mass)
        ctx.step()
        K = lab.max() + 1
        count = np.bincount(lab)
        ctx.require(np.array_equal(q.sizes, count), lambda: "sizes of the clusters of %d points: %s, expected %s" % (n, q.sizes[:5], count[:5]))
        w = np.ones(n) if mass is None else m.astype(float)
        M = np.bincount(lab, w)
        ctx.require(np.allclose(q.cluster_masses, M, rtol=1e-4), lambda: "masses of the clusters of %d points: %s, expected %s" % (n, q.cluster_masses[:5], M[:5]))
        if len(sizes) < 1000 and case["k"] not in (4,):
            for name, ww in (("centers", np.ones(n)), ("centers_of_mass", w)):
                for c in range(K):
                    want, sharp = circ(cell, (True,) * 3, p[lab == c].astype(float), ww[lab == c])
                    err, _ = fdiff(cell, (True,) * 3, getattr(q, name)[c] - want)
                    ctx.require(np.abs(err).max() <= 1e-2 / sharp, lambda: "%s of a cluster of %d points: %s, expected %s" % (
                        name, count[c], getattr(q, name)[c], want))
    ctx.state()


def masses_of(n, k):
    return [None, (1 + np.arange(n) % 7).astype(np.float32), np.float32(2) ** -(np.arange(n) % 12)[::-1].astype(np.float32)][k]


def labels(case, ctx):
    s = zoo.System(case["box"], "gen:5:3")
    for rest in itertools.product(range(5), repeat=4):
        lab = np.array((case["first"],) + rest, np.uint32)
        if not ctx.thorough and rest[0] > 2:
            continue
        properties(s.cell, [True] * 3, s.box, s.p, lab, masses_of(5, sum(rest) % 3), ctx, "labels %s in %s" % (
            lab.tolist(), case["box"]))


def props(case, ctx):
    s = zoo.System(case["box"], case["p"])
    for fr in (0.1, 0.3, 0.6):
        cl = freud.cluster.Cluster().compute((s.box, s.p), neighbors={"r_max": fr * s.half})
        for k in range(3):
            for form in ("raw", "aabb"):
                lab = np.array(cl.cluster_idx)
                properties(s.cell, [True] * 3, s.box, s.p, lab, masses_of(s.n, k), ctx, "clusters (%g) of %s in %s, masses %d" % (
                    fr, case["p"], case["box"], k))
                # relabeled, with gaps
                lab2 = (lab.astype(int) * 3 + 1) % 11
                properties(s.cell, [True] * 3, s.box, s.p, lab2.astype(np.uint32), masses_of(s.n, k), ctx, "relabeled clusters (%g) of %s in %s, masses %d" % (
                    fr, case["p"], case["box"], k))


def com(case, ctx):
    cell = ref.Cell(case["box"])
    per = list(case["per"]) + ([False] if cell.is2d else [])
    box = cell.freud(per)
    scale = float(max(cell.L))
    for ps in ("gen:1:1", "gen:1:2", "gen:2:3", "gen:3", "gen:7", "clu:9:4", "clu:6:2", "gen:4:5", "gen:1:6", "lat:2:0.3"):
        p = ref.points(cell, ps)
        for k in range(3):
            m = masses_of(len(p), k)
            c = box.center_of_mass(p, m)
            ctx.step()
            want, sharp = circ(cell, per, p, np.ones(len(p)) if m is None else m.astype(float))
            if sharp < 1e-3:
                continue
            err, _ = fdiff(cell, per, np.array(c, float) - want)
            ctx.require(np.abs(err).max() <= 3e-6 * scale / sharp, lambda: "center_of_mass of %s in %s periodic %s: %s, expected %s" % (
                ps, case["box"], per, list(map(float, c)), want.tolist()))
            got = np.array(box.center(p, m), float)
            d, margin = fdiff(cell, per, p.astype(float) - want)
            e, _ = fdiff(cell, per, got - d)
            ctx.require(np.abs(e).max() <= 4e-6 * scale / sharp, lambda: "center of %s in %s periodic %s differs by %g" % (
                ps, case["box"], per, np.abs(e).max()))
            lab = np.zeros(len(p), np.uint32)
            properties(cell, per, box, p, lab, m, ctx, "all of %s in %s periodic %s" % (ps, case["box"], per))


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
