"""Structure factors and diffraction patterns follow their definitions."""
import itertools

import numpy as np
from scipy.special import j0

from mc import ref, zoo
from mc.checks.p19 import conj, qrot
from mc.checks.p20 import qmul

BOUNDS = {
    "quick": "Debye: 13 boxes x 9 systems (whole or partial) x 5 sets of k x up to 3 frames in different boxes; diffraction: 24 axis-aligned "
             "views, also turned in their plane by 4 angles, x 6 pairs of grid and output sizes x 3 zooms x 3 widths x weights x 2 frames, every pixel whose frequency "
             "lies within those of the grid; each also on two systems of 260 to 300 points",
    "thorough": "as quick with more systems and sizes",
}
HANG = 200
SYS = [("gen:7", None), ("gen:33:2", None), ("clu:9:4", None), ("gen:4:3", "gen:5:8"), ("gen:5:3", "gen:4:8"),
       ("gen:1", "gen:6:2"), ("gen:6:4", "gen:1:5"), ("gen:1", None), ("dup:6", None)]
S2 = np.sqrt(.5)


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        for p, q in SYS + ([("gen:120:5", None), ("lat:3:0.1", None)] if th else []) + ref.BIG.get(b, []):
            yield {"c": "debye", "box": b, "p": p, "q": q}
    for v in range(24):
        for g, o in [(16, 16), (17, 16), (16, 24), (15, 31), (24, 9), (33, 33)] + ([(64, 100), (99, 64)] if th else []):
            for a in [0] + ([0.3, 0.9273, 2.2, -1.1] if g != o or v % 4 == 0 or th else []):
                yield {"c": "pattern", "view": v, "turn": a, "grid": g, "out": o}


def sinc(x):
    return np.where(np.abs(x) < 1e-6, 1 - x * x / 6, np.sin(x) / np.where(x == 0, 1, x))


def distances(cell, p, q):
    """Distances as wrapped, and whether some wrap may go two ways."""
    d = (q[None].astype(float) - p[:, None].astype(float)).reshape(-1, 3)
    f = d @ cell.hinv.T
    f -= np.round(f)
    if cell.is2d:
        f[:, 2] = 0
    unsure = any(cell.spec[3:]) and np.abs(np.abs(f) - 0.5).min() < 1e-5
    return np.sqrt(((f @ cell.h.T) ** 2).sum(-1)), unsure


def debye(case, ctx):
    other = {"cube8": "generic", "sq": "neg2"}
    for kn, kmax, kmin in ((1, 3.0, 1.0), (2, 4.0, 0.0), (7, 10.0, 0.5), (25, 6.0, 0), (40, 25.0, 3.0)):
        o = freud.diffraction.StaticStructureFactorDebye(kn, kmax, kmin)
        k = np.linspace(kmin, kmax, kn) if kn > 1 else np.array([(kmin + kmax) / 2])
        kv = np.array(o.k_values, float)
        if kn == 1:
            k = kv
            ctx.require(kv.shape == (1,) and kmin <= kv[0] <= kmax, lambda: "k_values %s" % kv)
        ctx.require(kv.shape == k.shape and np.abs(kv - k).max() <= 1e-5 * kmax, lambda: "k_values %s, expected %s" % (kv[:4], k[:4]))
        total = 0
        tol = 0
        for f in range(3 if kn < 25 else 1):
            box = case["box"] if f != 1 else other.get(case["box"], case["box"])
            s = zoo.System(box, case["p"] if f != 2 else "gen:11:9", case["q"])
            q = s.p if s.q is None else s.q
            d, unsure = distances(s.cell, s.p, q)
            if unsure:
                break
            N = s.n + s.m + f if s.q is not None else s.n
            x = np.outer(k, d)
            val = j0(x) if s.cell.is2d else sinc(x)
            total = total + val.sum(1) / N
            tol = tol + len(d) / N * (k * 3e-6 * float(max(s.cell.L)) + 1e-6) + 1e-6
            form = ("raw", "aabb", "tuple")[f]
            kw = {} if s.q is None else {"query_points": s.q, "N_total": N}
            o.compute(s.system(freud, form), reset=f == 0, **kw)
            ctx.step()
            want = total / (f + 1)
            got = np.array(o.S_k, float)
            ctx.require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), lambda: "S(k) of %s/%s in %s, frame %d, k %d to %g: %s, expected %s" % (
                case["p"], case["q"], case["box"], f, kn, kmax, got[np.abs(got - want) > tol][:3], want[np.abs(got - want) > tol][:3]))
            if f == 0:
                L = min(s.cell.L[:s.cell.dim])
                ctx.require(abs(o.min_valid_k - 4 * np.pi / L) < 1e-5, lambda: "min_valid_k %g of %s" % (o.min_valid_k, case["box"]))
            ctx.state()


def views():
    G = [np.array([1.0, 0, 0, 0])]
    k = 0
    while k < len(G):
        for g in ((S2, 0, 0, S2), (.5, .5, .5, .5)):
            x = qmul(G[k], np.array(g, float))
            if not any(min(np.abs(x - y).max(), np.abs(x + y).max()) < 1e-9 for y in G):
                G.append(x)
        k += 1
    return G


def pattern(case, ctx):
    aligned = views()[case["view"]]
    c, s = np.cos(case["turn"]), np.sin(case["turn"])
    turn = np.array([[c, -s], [s, c]])
    view = qmul(np.array([np.cos(case["turn"] / 2), 0, 0, np.sin(case["turn"] / 2)]), aligned)
    n, m = case["grid"], case["out"]
    rs = np.random.RandomState(case["view"])
    # the view of points at the centers of the grid's cells
    for L, N in ((8.0, 12), (5.0, 3)):
        bins = rs.randint(0, n, (N, 3))
        p = np.float32(((bins + 0.5) / n - 0.5) * L)
        box = freud.box.Box.cube(L)
        for zoom, width, wk in itertools.product((4, 1, 2.5, 0.5, 0.625), (1e-4, 1, 6.0), (0, 1, 2)):
            if wk and width != 1 or zoom < 1 and width > 1:
                continue
            o = freud.diffraction.DiffractionPattern(n, m)
            if width == 1 and wk == 0:
                # used before, from another direction
                o.compute((box, p[:1]), view_orientation=views()[(case["view"] + 7) % 24], zoom=zoom)
                np.array(o.k_vectors), np.array(o.k_values)
                ctx.step()
            w = None if not wk else rs.rand(N) + 0.1
            if wk == 2:
                # of both signs, with a sum well away from zero even in the second frame
                w = np.where(np.arange(N) % 3 == 1, -0.4, 1.0) * w
            want = 0
            for f in range(2 if width == 1 else 1):
                P = p if f == 0 else p[:max(1, N // 2)]
                W = None if w is None else w[:len(P)]
                v = None if case["view"] == 0 and not case["turn"] and f == 0 else view
                o.compute((box, P), view_orientation=v, zoom=zoom, peak_width=width, weights=W, reset=f == 0)
                ctx.step()
                a = (np.arange(m) - m // 2) / zoom       # frequencies of the pixels along the turned view's x and y
                u = np.stack(np.meshgrid(a, a, indexing="ij"), -1) @ turn   # ... and along the box's axes
                lo = np.floor(u + 1e-9).astype(int)
                hi = np.where(np.abs(u - np.round(u)) < 1e-9, lo, lo + 1)
                t = np.where(hi > lo, u - lo, 0.0)
                # the outermost frequencies of the grid are left out (rounding may put them outside)
                sel = ((lo >= -(n // 2) + 2) & (hi <= n // 2 - 2)).all(-1)
                S = intensity(P, W, aligned, np.arange(-n, n + 1), L) * np.exp(
                    -(2 * np.pi * width / zoom / n) ** 2 * (np.arange(-n, n + 1)[:, None] ** 2 + np.arange(-n, n + 1)[None] ** 2.0))
                B = np.zeros((m, m))
                for ia, wa in ((lo, 1 - t), (hi, t)):
                    for ib, wb in ((lo, 1 - t), (hi, t)):
                        B[sel] += S[ia[sel][:, 0] + n, ib[sel][:, 1] + n] * wa[sel][:, 0] * wb[sel][:, 1]
                want = want + B
                D = np.array(o.diffraction)
                ctx.require(D.shape == (m, m), lambda: "pattern of shape %s" % (D.shape,))
                # each entry belongs to the k vector of the same indices
                got = D[sel]
                e = np.abs(got - want[sel] / (f + 1)).max() if sel.any() else 0
                ctx.require(e < 1e-3 * N, lambda: "pattern of %d points, view %d turned %g, grid %d, output %d, zoom %g, width %g, weights %d, frame %d: off by %g" % (
                    N, case["view"], case["turn"], n, m, zoom, width, wk, f, e))
                c = D[m // 2, m // 2]
                mean = np.mean([N, max(1, N // 2)][:f + 1])
                ctx.require(abs(c - mean) < 1e-4 * N, lambda: "S(0) = %g for %g points" % (c, mean))
                ctx.require(o.N_points == len(P), "N_points")
                k = np.array(o.k_values)
                kw = (np.arange(m) - m // 2) * 2 * np.pi / (L * zoom)
                ctx.require(k.shape == (m,) and np.abs(k - kw).max() < 1e-6 * (1 + kw.max()), lambda: "k_values %s, expected %s" % (k[:3], kw[:3]))
                K = np.array(o.k_vectors)
                kk = np.zeros((m, m, 3))
                kk[..., 0], kk[..., 1] = kw[:, None], kw[None]
                kk = qrot(np.broadcast_to(conj(view), (m, m, 4)), kk)
                ctx.require(K.shape == kk.shape and np.abs(K - kk).max() < 1e-5 * (1 + kw.max()), lambda: "k_vectors %s, expected %s" % (
                    K[0, -1], kk[0, -1]))
                ctx.state()


def intensity(p, w, view, freq, L):
    """|sum of weight exp(-i k r)|^2 / N at the given frequencies along the view's x and y."""
    r = qrot(np.broadcast_to(view, (len(p), 4)), p.astype(float))
    w = np.ones(len(p)) if w is None else w * len(p) / w.sum()
    ex = np.exp(-2j * np.pi / L * np.outer(freq, r[:, 0]))
    ey = np.exp(-2j * np.pi / L * np.outer(freq, r[:, 1]))
    return np.abs(np.einsum("ap,bp,p->ab", ex, ey, w)) ** 2 / len(p)


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
