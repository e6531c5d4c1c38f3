"""The direct structure factor samples the whole grid and equals its definition on it."""
import itertools

import numpy as np

from mc import ref, zoo

VARIANTS = ["full"]
BOUNDS = {
    "quick": "13 boxes x 4 systems x 5 ranges of k x 3 numbers of bins, all vectors and two numbers of sampled ones; with and "
             "without query points; every sequence of up to 3 of 4 frames (two of them in other boxes), with and without reset",
    "thorough": "as quick with 7 systems and longer ranges of k",
}
HANG = 300
TAU = 2 * np.pi


def setup(ctx):
    global freud
    import freud
    zoo.freud = freud


def cases(tier):
    th = tier == "thorough"
    for b in ref.BOXES:
        for p in ["gen:7", "lat:2:0.25", "gen:1", "clu:12:4"] + (["gen:30:3", "bdy", "lat:3"] if th else []):
            yield {"c": "one", "box": b, "p": p}
    for b in ("cube8", "generic", "steep", "sq", "neg2"):
        for n in (1, 2, 3):
            yield {"c": "frames", "box": b, "n": n}


RANGES = [(0, 3), (0, 1.2), (1.0, 4.0), (2.5, 2.9), (0.1, 0.7)]


def grid(cell, k_min, k_max):
    """The vectors within [k_min, k_max], and which of them are clearly so."""
    d = cell.dim
    B = TAU * cell.hinv[:d]                     # rows: reciprocal vectors
    a = np.linalg.norm(cell.h.T[:d], axis=1)
    n = [int(k_max * x / TAU) + 2 for x in a]
    c = np.array(list(itertools.product(*[range(x + 1) for x in n])), float)
    k = c @ B
    if d == 2:
        k[:, 2] = 0
    m = np.linalg.norm(k, axis=1)
    e = 1e-5 * (1 + k_max)
    near = (m > k_min - e) & (m < k_max + e)
    sure = ((m > k_min + e) | ((m == 0) & (k_min == 0))) & (m < k_max - e)
    return k[near], sure[near]


def amplitude(k, p):
    return np.exp(1j * (k @ p.astype(float).T)).sum(1)


def verify_points(o, cell, k_min, k_max, sampled, ctx, what):
    got = np.asarray(o.k_points, float).reshape(-1, 3)
    want, sure = grid(cell, k_min, k_max)
    if not len(want):
        ctx.require(len(got) == 0, what + ": k_points out of range")
        return got
    if len(got):
        d = np.abs(got[:, None] - want[None]).max(2)
        j = d.argmin(1)
        ctx.require((d.min(1) < 1e-4 * (1 + k_max)).all(), lambda: "%s: %s is no grid vector in range" % (
            what, got[d.min(1).argmax()]))
        ctx.require(len(set(j.tolist())) == len(j), what + ": a grid vector occurs twice")
    else:
        j = np.zeros(0, int)
    if not sampled:
        miss = sure.copy()
        miss[j] = False
        ctx.require(not miss.any(), lambda: "%s: %d of %d grid vectors are missing, such as %s of length %g" % (
            what, miss.sum(), sure.sum(), want[miss][0], np.linalg.norm(want[miss][0])))
    ctx.state()
    return want[j] if len(j) else got


def histogram(frames, bins, k_min, k_max):
    """Mean over all vectors of all frames in each bin, and whether the bin is clear of doubtful ones."""
    edges = np.linspace(k_min, k_max, bins + 1)
    S, n, clear = np.zeros(bins), np.zeros(bins), np.ones(bins, bool)
    for k, s in frames:
        m = np.linalg.norm(k, axis=1)
        x = (m - k_min) / (k_max - k_min) * bins
        b = np.floor(x).astype(int)
        for a, v, f in zip(b, s, x):
            near = abs(f - round(f)) < 2e-4 and not (f == 0 and k_min == 0)
            if near:
                for c in (int(round(f)) - 1, int(round(f))):
                    if 0 <= c < bins:
                        clear[c] = False
            if 0 <= a < bins:
                S[a] += v
                n[a] += 1
    return S / np.maximum(n, 1), n, clear, edges


def verify(o, frames, bins, k_min, k_max, scale, ctx, what):
    want, n, clear, edges = histogram(frames, bins, k_min, k_max)
    got = np.array(o.S_k, float)
    ctx.require(got.shape == (bins,), what + ": shape of S_k")
    ctx.require(np.allclose(o.bin_edges, edges, atol=1e-5) and np.allclose(o.bin_centers, (edges[1:] + edges[:-1]) / 2, atol=1e-5)
                and np.allclose(o.bounds, (k_min, k_max), atol=1e-5), what + ": bins")
    bad = clear & ~(np.abs(got - want) <= 3e-4 * scale)
    if bad.any():
        b = int(np.nonzero(bad)[0][0])
        ctx.fail("%s: S_k[%d] is %g, expected %g (mean over %d vectors)" % (what, b, got[b], want[b], n[b]))
    ctx.count("bins", int(clear.sum()))
    ctx.count("doubtful_bins", int((~clear).sum()))
    ctx.state()


def one(case, ctx):
    for q in (None, "gen:5:7", "gen:11:8"):
        s = zoo.System(case["box"], case["p"], q=q)
        N = s.n if q is None else s.n + s.m
        for (k_min, k_max), bins, num in itertools.product(RANGES + ([(0, 6), (3, 7)] if ctx.thorough else []),
                                                          (1, 4, 17), (0, 5, 40)):
            o = freud.diffraction.StaticStructureFactorDirect(bins, k_max, k_min, num)
            kw = {} if q is None else {"query_points": s.q, "N_total": N}
            o.compute(s.system(freud, "tuple" if bins == 1 else "aabb"), **kw)
            ctx.step()
            what = "StaticStructureFactorDirect(%d, %g, %g, %d) of %s, %s in %s" % (
                bins, k_max, k_min, num, case["p"], q, case["box"])
            k = verify_points(o, s.cell, k_min, k_max, num, ctx, what)
            F = amplitude(k, s.p)
            G = F if q is None else amplitude(k, s.q)
            verify(o, [(k, (F.conj() * G).real / N)], bins, k_min, k_max, max(s.n, s.m), ctx, what)
            L = s.cell.L[:s.cell.dim].min()
            ctx.require(abs(o.min_valid_k - TAU / L) < 1e-5 * TAU, what + ": min_valid_k")
            ctx.require((o.k_min, o.k_max, o.nbins, o.num_sampled_k_points) == (
                np.float32(k_min), np.float32(k_max), bins, num), what + ": parameters")


def frames(case, ctx):
    b = case["box"]
    c = ref.BOXES[b]
    other = tuple(x * f for x, f in zip(c, (1.25, 0.75, 1.1, 1, 1, 1)))
    tilted = tuple(x + y for x, y in zip(c, (0, 0, 0, 0.3, 0 if c[2] == 0 else -0.2, 0 if c[2] == 0 else 0.4)))
    S = [zoo.System(b, "gen:6"), zoo.System(b, "gen:9:3"), zoo.System(other, "gen:5:4"), zoo.System(tilted, "gen:7:6")]
    for num in (0, 8):
        for h in itertools.product([(i, r) for i in range(4) for r in (True, False)], repeat=case["n"]):
            k_min, k_max, bins = (0, 3, 6) if len(h) % 2 else (0.8, 3, 5)
            o = freud.diffraction.StaticStructureFactorDirect(bins, k_max, k_min, num)
            acc = []
            last = None
            what = "%d sampled vectors, frames %s in %s" % (num, h, b)
            mins = []
            for i, r in h:
                o.compute((S[i].box, S[i].p), reset=r)
                ctx.step()
                k = verify_points(o, S[i].cell, k_min, k_max, num, ctx, what)
                if r:
                    acc, mins = [], []
                acc.append((k, np.abs(amplitude(k, S[i].p)) ** 2 / S[i].n))
                mins.append(TAU / S[i].cell.L[:S[i].cell.dim].min())
            verify(o, acc, bins, k_min, k_max, 9, ctx, what)
            ctx.require(any(abs(o.min_valid_k - m) < 1e-5 * TAU for m in mins), what + ": min_valid_k")


def check(case, ctx):
    {"one": one, "frames": frames}[case["c"]](case, ctx)
