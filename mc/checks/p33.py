"""Environments match exactly when their vectors can be paired within the threshold."""
import itertools

import numpy as np
from scipy.optimize import linear_sum_assignment

from mc import ref, zoo

VARIANTS = ["full"]
BOUNDS = {
    "quick": "clusters of environments and matches of motifs of every assignment of 6 variants (the same, permuted, rotated, shaken, "
             "mirrored, of other size) of 9 motifs of 1 to 6 vectors to 3 points, compared along a chain or all pairs, 3 thresholds, "
             "with and without registration; systems in 5 boxes with 4 neighbor arguments",
    "thorough": "every assignment to 4 points; 13 boxes",
}
HANG = 120


def setup(ctx):
    global freud
    import freud
    zoo.freud = freud


G = np.array([[1, 0.1, 0.2], [-0.3, 1.2, 0.1], [0.2, -0.4, 0.9], [-0.8, -0.6, 0.3], [0.5, 0.7, -1.1], [0.1, -1.3, -0.6]])
MOTIFS = {
    "one": G[:1], "two": G[:2], "three": G[:3], "four": G[:4], "five": G[:5],
    "line": np.array([[1, 0.2, 0], [-1, -0.2, 0]]),
    "flat": np.array([[1, 0, 0], [0, 1.1, 0], [-1.2, 0, 0], [0, -0.9, 0]]),
    "cubic": np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]]),
    "none": G[:0],
}
VARIANT = ["same", "perm", "rot", "shake", "mirror", "size"]


def rot(seed):
    q = zoo.quats(3, 5)[seed % 3].astype(float)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def variant(m, kind, a):
    n = len(m)
    p = np.roll(np.arange(n)[::-1], a)
    if kind == "same":
        v = m
    elif kind == "perm":
        v = m[p]
    elif kind == "rot":
        v = m[p] @ rot(a).T
    elif kind == "shake":
        v = m[p] + 0.03 * np.cos(np.arange(3 * n).reshape(n, 3) * 2 + a)
    elif kind == "mirror":
        v = m[p] * [1, 1, -1]
    else:
        v = m[:-1] if n > 1 else np.concatenate([m, m + 0.3]) if n else G[3:5]
    return v.astype(np.float32)


def cases(tier):
    th = tier == "thorough"
    for m in MOTIFS:
        for first in VARIANT:
            for reg in (False, True):
                for pat in ("chain", "all"):
                    yield {"c": "made", "m": m, "first": first, "reg": reg, "pat": pat, "n": 4 if th else 3}
    for b in (ref.BOXES if th else ("cube8", "generic", "steep", "sq", "neg2")):
        for p in ["gen:9", "lat:2:0.25", "lat:3", "clu:12:4"]:
            for reg in (False, True):
                yield {"c": "system", "box": b, "p": p, "reg": reg}


def relation(a, b, thr):
    """(surely, possibly) match, without rotation."""
    if len(a) != len(b) or len(a) == 0:
        return False, False
    d = np.linalg.norm(a[:, None] - b[None], axis=2)
    e = 1e-5 * (1 + np.abs(a).max())
    pos = d < thr + e
    r, c = linear_sum_assignment(~pos)
    possible = pos[r, c].all()
    sure = possible and (pos.sum(0) == 1).all() and (pos.sum(1) == 1).all() and (d[r, c] < thr - e).all()
    return bool(sure), bool(possible)


def isometric(p, e, tol):
    """Whether p is a rotated permutation of e."""
    if len(p) != len(e):
        return False
    n = len(e)
    gp, ge = p @ p.T, e @ e.T

    def go(k, used):
        if k == n:
            m = list(used)
            if np.linalg.matrix_rank(e, 1e-3) < 3:
                return True
            A = np.linalg.lstsq(e[m], p, rcond=None)[0]
            return np.linalg.det(A) > 0
        for x in range(n):
            if x not in used and all(abs(gp[k, y] - ge[x, used[y]]) < tol for y in range(k)) and \
                    abs(gp[k, k] - ge[x, x]) < tol:
                if go(k + 1, used + [x]):
                    return True
        return False
    return go(0, [])


def permuted(p, e, tol):
    if len(p) != len(e):
        return False
    if len(e) == 0:
        return True
    d = np.linalg.norm(p[:, None] - e[None], axis=2)
    r, c = linear_sum_assignment(d)
    return d[r, c].max() < tol


def arr(x):
    return np.asarray(x, float).reshape(-1, 3)


def verify_clusters(o, envs, pairs, thr, reg, copies, ctx, what):
    n = len(envs)
    lab = np.array(o.cluster_idx)
    ctx.require(lab.shape == (n,), what + ": shape of cluster_idx")
    seen = []
    for x in lab:
        if x not in seen:
            seen.append(int(x))
    ctx.require(seen == list(range(len(seen))) and o.num_clusters == len(seen), lambda: "%s: cluster_idx %s, %d clusters" % (
        what, lab.tolist(), o.num_clusters))
    P = [arr(x) for x in o.point_environments]
    C = [arr(x) for x in o.cluster_environments]
    ctx.require(len(P) == n, lambda: "%s: %d point_environments for %d points" % (what, len(P), n))
    ctx.require(len(C) == len(seen), lambda: "%s: %d cluster_environments of %d clusters" % (what, len(C), len(seen)))
    for i in range(n):
        ok = isometric(P[i], envs[i], 3e-4) if reg else permuted(P[i], envs[i], 1e-5)
        ctx.require(ok, lambda: "%s: the environment of point %d is %s, its vectors are %s" % (
            what, i, P[i].tolist(), envs[i].tolist()))
    tol = 1e-4 if reg else 1e-5
    root = list(range(n))

    def find(a):
        while root[a] != a:
            a = root[a]
        return a
    for i, j in pairs:
        if not reg:
            s, p = relation(envs[i], envs[j], thr)
            ctx.require(not s or lab[i] == lab[j], lambda: "%s: points %d and %d match but are in clusters %d and %d" % (
                what, i, j, lab[i], lab[j]))
        elif copies(i, j):
            ctx.require(lab[i] == lab[j], lambda: "%s: points %d and %d are rotated copies but in clusters %d and %d" % (
                what, i, j, lab[i], lab[j]))
        if lab[i] == lab[j] and len(P[i]) == len(P[j]) and len(P[i]) and \
                np.linalg.norm(P[i] - P[j], axis=1).max() < thr + tol:
            root[find(i)] = find(j)
    for c in range(len(seen)):
        mem = np.nonzero(lab == c)[0]
        ctx.require(len({find(int(i)) for i in mem}) == 1, lambda: "%s: cluster %s is not held together by matches: %s" % (
            what, mem.tolist(), [P[i].tolist() for i in mem]))
        mean = np.mean([P[i] for i in mem], axis=0) if len(P[mem[0]]) else np.zeros((0, 3))
        ctx.require(C[c].shape == mean.shape and np.allclose(C[c], mean, atol=2e-5), lambda: "%s: cluster_environments[%d] is %s, "
                    "the mean of its members' is %s" % (what, c, C[c].tolist(), mean.tolist()))
    ctx.state()


def verify_motif(o, envs, motif, thr, reg, copy, ctx, what):
    got = np.array(o.matches)
    n = len(envs)
    ctx.require(got.shape == (n,) and got.dtype == bool, what + ": matches")
    P = [arr(x) for x in o.point_environments]
    ctx.require(len(P) == n, lambda: "%s: %d point_environments for %d points" % (what, len(P), n))
    for i in range(n):
        if not reg:
            s, p = relation(motif, envs[i], thr)
            ctx.require(s <= got[i] <= p, lambda: "%s: point %d %s" % (what, i, "matches" if got[i] else "does not match"))
        else:
            ctx.require(got[i] or not copy(i), lambda: "%s: point %d is a rotated copy but does not match" % (what, i))
        if got[i]:
            ctx.require(len(P[i]) == len(motif) and np.linalg.norm(P[i] - motif, axis=1).max() < thr + 1e-4,
                        lambda: "%s: point %d matches with vectors %s" % (what, i, P[i].tolist()))
        ok = isometric(P[i], envs[i], 3e-4) if reg and got[i] else permuted(P[i], envs[i], 1e-5)
        ctx.require(ok, lambda: "%s: the environment of point %d is %s, its vectors are %s" % (
            what, i, P[i].tolist(), envs[i].tolist()))
    ctx.state()


def made(case, ctx):
    m = MOTIFS[case["m"]]
    n = case["n"]
    N = max(n, 8)
    box = freud.box.Box.cube(20)
    p = np.array([[2.0 * a, (a * a) % 5, a % 3] for a in range(N)], np.float32)
    aq = freud.locality.AABBQuery(box, p)
    o = freud.environment.EnvironmentCluster()
    mm = freud.environment.EnvironmentMotifMatch()
    pairs = [(a, a + 1) for a in range(n - 1)] if case["pat"] == "chain" else [
        (a, b) for a in range(n) for b in range(n) if a != b]
    cl = freud.locality.NeighborList.from_arrays(N, N, [a for a, b in pairs], [b for a, b in pairs],
                                                 np.array([p[b] - p[a] for a, b in pairs]))
    reg = case["reg"]
    for rest in itertools.product(VARIANT, repeat=n - 1):
        kinds = (case["first"],) + rest
        envs = [variant(m, k, a) for a, k in enumerate(kinds)] + [np.zeros((0, 3), np.float32)] * (N - n)
        i = np.concatenate([np.full(len(e), a) for a, e in enumerate(envs)]).astype(int)
        j = np.concatenate([(a + 1 + np.arange(len(e))) % N for a, e in enumerate(envs)]).astype(int)
        v = np.concatenate(envs)
        if len(v) == 0:
            continue
        # lists are sorted by query point and distance
        el = freud.locality.NeighborList.from_arrays(N, N, i, j, v)
        E = [np.array(el.vectors)[np.array(el.query_point_indices) == a].astype(float) for a in range(N)]
        for thr in (0.02, 0.15, 0.6):
            what = "%s of motif %s, %s, threshold %g, registration=%s" % (kinds, case["m"], case["pat"], thr, reg)
            o.compute((box, p), thr, cluster_neighbors=cl, env_neighbors=el, registration=reg)
            ctx.step()
            same = ("same", "perm", "rot")
            verify_clusters(o, E, pairs, thr, reg, lambda a, b: len(m) > 0 and kinds[a] in same and kinds[b] in same, ctx, what)
            if len(m):
                mm.compute((box, p), m, thr, env_neighbors=el, registration=reg)
                ctx.step()
                verify_motif(mm, E, m, thr, reg, lambda a: a < n and kinds[a] in same, ctx, what)


def system(case, ctx):
    s = zoo.System(case["box"], case["p"])
    reg = case["reg"]
    o = freud.environment.EnvironmentCluster()
    mm = freud.environment.EnvironmentMotifMatch()
    args = [{"num_neighbors": 3}, {"num_neighbors": 5}, {"r_max": 0.45 * s.half}, {"r_max": 0.7 * s.half}]
    for env, clu in itertools.product(args, args[:1] + args[2:]):
        for form in ("dict", "list"):
            aq = freud.locality.AABBQuery(s.box, s.p)
            L = [aq.query(s.p, dict(x, exclude_ii=True)).toNeighborList() for x in (env, clu)]
            E = [np.array(L[0].vectors, float)[(np.array(L[0].query_point_indices) == a) & (
                np.array(L[0].point_indices) != a)] for a in range(s.n)]
            k = max(len(e) for e in E)
            if reg and k > 6:
                continue
            pairs = list(zip(np.array(L[1].query_point_indices).tolist(), np.array(L[1].point_indices).tolist()))
            a = (env, clu) if form == "dict" else L
            for thr in (0.1, 0.8):
                what = "%s and %s of %s, threshold %g, registration=%s, %s" % (env, clu, case["p"], thr, reg, form)
                o.compute(s.system(freud, "aabb"), thr, cluster_neighbors=a[1], env_neighbors=a[0], registration=reg)
                ctx.step()
                verify_clusters(o, E, pairs, thr, reg, lambda a, b: False, ctx, what)
                if form == "dict" and env == clu:
                    o.compute(s.system(freud, "aabb"), thr, cluster_neighbors=a[1], registration=reg)
                    ctx.step()
                    verify_clusters(o, E, pairs, thr, reg, lambda a, b: False, ctx, what + " without env_neighbors")
                # a motif's vectors are taken as their images in the box: not those half the box away
                big = [e for e in E if len(e) and np.abs(s.cell.frac(e)[:, :s.cell.dim] - 0.5).max() < 0.499]
                if big:
                    mm.compute(s.system(freud, "aabb"), big[0], thr, env_neighbors=a[0], registration=reg)
                    ctx.step()
                    verify_motif(mm, E, big[0].astype(np.float32).astype(float), thr, reg, lambda a: False, ctx, what)


def check(case, ctx):
    {"made": made, "system": system}[case["c"]](case, ctx)
