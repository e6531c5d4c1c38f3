"""Histograms put every value into the one bin that contains it."""
import itertools

import numpy as np

BOUNDS = {
    "quick": "RDF, correlation, four PMFTs, bond order: up to 8 bin numbers x 10 ranges; every edge, its float "
             "neighbors up to 3 ulp away, centers, values around and far outside the range, in every "
             "combination over the axes, one by one and together; angles over several turns; counts above 2^24",
    "thorough": "as quick with more bin numbers and ranges and finer sets of values",
}
HANG = 300
F = np.float32
PI2 = 2 * np.pi
RMAX = (1.0, 2.5, 0.1, 1 / 3, np.pi, 7.7, 1e-3, 123.4)
NB = (1, 2, 3, 7, 10, 49, 100)


def setup(ctx):
    global freud, BOX3, BOX2
    import freud
    BOX3 = freud.box.Box.cube(1000)
    BOX2 = freud.box.Box.square(1000)


def cases(tier):
    th = tier == "thorough"
    for c in ("rdf", "corr"):
        for r in RMAX + ((0.7, 3.3, 19.0, 1e4) if th else ()):
            for f in (0, 0.3, 0.9) if c == "rdf" else (0,):
                for n in NB + ((13, 1000, 20000) if th else (4000,)):
                    yield {"c": c, "r": r, "rmin": f, "n": n}
    for n in itertools.product((1, 2, 5, 6) if th else (1, 2, 5), repeat=2):
        for x, y in itertools.product((1.0, 2.5, 0.7, 1 / 3), repeat=2):
            yield {"c": "xy", "n": n, "m": [x, y]}
    for n in itertools.permutations((1, 3, 4) if not th else (1, 2, 3, 4, 5), 3):
        for m in ((1.0, 2.5, 0.7), (1 / 3, 0.1, 2.2)):
            yield {"c": "xyz", "n": n, "m": m}
    for n in ((1, 1, 1), (3, 4, 5), (5, 3, 4), (7, 6, 2), (2, 10, 12)) + (((9, 8, 7), (4, 360, 5)) if th else ()):
        yield {"c": "r12", "n": n}
        yield {"c": "xyt", "n": n}
    for n in itertools.product((2, 3, 4, 6) + ((5, 8, 36) if th else ()), repeat=2):
        yield {"c": "bo", "n": n}
    for c in ("rdf", "corr", "xy", "bo"):
        yield {"c": "big", "of": c}


def ulps(x, n):
    x = F(x)
    out = [x]
    a = b = x
    for _ in range(n):
        a = np.nextafter(a, F(np.inf))
        b = np.nextafter(b, F(-np.inf))
        out += [a, b]
    return out


def axis(lo, hi, n, edges, centers, bounds, ctx, what):
    e = np.asarray(edges, np.float64)
    c = np.asarray(centers, np.float64)
    tol = 4e-7 * max(abs(lo), abs(hi))
    ctx.require(len(e) == n + 1 and len(c) == n, lambda: "%s: %d edges and %d centers for %d bins" % (
        what, len(e), len(c), n))
    ctx.require(np.all(np.abs(e - np.linspace(lo, hi, n + 1)) <= tol) and np.all(np.diff(e) > 0),
                lambda: "%s: edges of %d bins of (%r, %r) are %s" % (what, n, lo, hi, e[:20].tolist()))
    ctx.require(np.all(np.abs(c - (e[1:] + e[:-1]) / 2) <= tol),
                lambda: "%s: centers %s" % (what, c[:20].tolist()))
    ctx.require(F(bounds[0]) == F(lo) and F(bounds[1]) == F(hi), lambda: "%s: bounds %s of (%r, %r)" % (
        what, bounds, lo, hi))


def values(lo, hi, e, few=False):
    out = []
    step = max(1, len(e) // 120)
    for x in list(e[::step]) + [e[-1]]:
        out += ulps(x, 1 if few else 3)
    out += [F((a + b) / 2) for a, b in zip(e[:-1:step], e[1::step])]
    out += [F(lo), F(hi)] + ulps(hi, 1) + ulps(lo, 1) + [F(hi * 1.5 + 1), F(hi * 3), F(hi + (hi - lo) / len(e))]
    out += [F(lo - 0.1 * (hi - lo)), F(lo - 5 * (hi - lo))]
    return sorted({float(v) for v in out})


def bins_of(v, lo, hi, n, tol=None):
    """Bins that may hold v, and whether it must be counted; v exact unless tol is given."""
    w = (float(hi) - float(lo)) / n
    t = 1e-6 * max(abs(lo), abs(hi)) if tol is None else tol
    if tol is None and not F(lo) <= F(v) < F(hi):
        return set(), False
    b = set()
    for x in (v - t, v, v + t):
        k = int(np.floor((x - float(lo)) / w))
        if tol is None:
            b.add(min(max(k, 0), n - 1))
        else:
            b.add(k % n)
    return b, True


def expect(ctx, counts, sure, what):
    """sure: list of sets of admissible flat indices of the values that must be counted."""
    shape = counts.shape
    counts = np.asarray(counts, np.int64).ravel()
    lo = np.zeros(len(counts), int)
    hi = np.zeros(len(counts), int)
    for s in sure:
        if len(s) == 1:
            lo[next(iter(s))] += 1
        for k in s:
            hi[k] += 1
    ctx.require(counts.sum() == len(sure), lambda: "%s: %d of %d values inside the range are counted" % (
        what, counts.sum(), len(sure)))
    bad = (counts < lo) | (counts > hi)
    ctx.require(not bad.any(), lambda: "%s: bin %s holds %d values, expected %d to %d" % (
        what, list(np.unravel_index(np.argmax(bad), shape)), counts[np.argmax(bad)], lo[np.argmax(bad)],
        hi[np.argmax(bad)]))


def nlist(vec, nq=1, qi=None, ni=None, n=1):
    m = len(vec)
    qi = np.zeros(m, np.uint32) if qi is None else qi
    ni = np.zeros(m, np.uint32) if ni is None else ni
    return freud.locality.NeighborList.from_arrays(nq, n, qi, ni, np.ascontiguousarray(vec, np.float32))


def one_d(case, ctx):
    n, r = case["n"], float(F(case["r"]))
    lo = float(F(case["rmin"] * r))
    pt = np.zeros((1, 3), np.float32)
    if case["c"] == "rdf":
        mk = lambda: freud.density.RDF(n, r, lo)  # noqa
        run = lambda o, nl, rs=True: o.compute((BOX3, pt), neighbors=nl, reset=rs)  # noqa
    else:
        mk = lambda: freud.density.CorrelationFunction(n, r)  # noqa
        run = lambda o, nl, rs=True: o.compute((BOX3, pt), np.ones(1), neighbors=nl, reset=rs)  # noqa
    o = mk()
    ctx.require(o.nbins == n, lambda: "nbins is %r" % (o.nbins,))
    axis(lo, r, n, o.bin_edges, o.bin_centers, o.bounds, ctx, case["c"])
    v = [x for x in values(lo, r, o.bin_edges) if x >= 0]
    vec = np.zeros((len(v), 3), np.float32)
    vec[:, 0] = v
    nl = nlist(vec)
    d = np.array(nl.distances, float)
    cand = [bins_of(x, lo, r, n) for x in d]
    run(o, nl)
    expect(ctx, np.array(o.bin_counts), [b for b, m in cand if m], "%s(%d, %r, %r)" % (case["c"], n, r, lo))
    ctx.state(len(v))
    if n > 10:
        return
    for k in range(len(v)):
        one = nlist(vec[k:k + 1])
        run(o, one)
        ctx.step()
        expect(ctx, np.array(o.bin_counts), [cand[k][0]] if cand[k][1] else [],
               "%s(%d, %r, %r), the value %r alone" % (case["c"], n, r, lo, float(d[k])))


def cartesian(case, ctx):
    n, m = case["n"], [float(F(x)) for x in case["m"]]
    dim = len(n)
    pt = np.zeros((1, 3), np.float32)
    if dim == 2:
        o = freud.pmft.PMFTXY(m[0], m[1], n)
        run = lambda nl: o.compute((BOX2, pt), np.zeros(1), neighbors=nl)  # noqa
    else:
        o = freud.pmft.PMFTXYZ(m[0], m[1], m[2], n)
        run = lambda nl: o.compute((BOX3, pt), np.array([[1, 0, 0, 0]]), neighbors=nl)  # noqa
    ctx.require(tuple(o.nbins) == tuple(n), lambda: "nbins is %s for %s" % (o.nbins, n))
    vals = []
    for a in range(dim):
        axis(-m[a], m[a], n[a], o.bin_edges[a], o.bin_centers[a], o.bounds[a], ctx, case["c"])
        vals.append(values(-m[a], m[a], o.bin_edges[a], few=True))
    memo = [{v: bins_of(v, -m[a], m[a], n[a]) for v in vals[a]} for a in range(dim)]
    combos = np.array(list(itertools.product(*vals)))
    vec = np.zeros((len(combos), 3), np.float32)
    vec[:, :dim] = combos
    run(nlist(vec))
    sure = []
    for c in combos:
        bs = [memo[a][c[a]] for a in range(dim)]
        if all(b[1] for b in bs):
            sure.append({int(np.ravel_multi_index(k, n)) for k in itertools.product(*[b[0] for b in bs])})
    ctx.state(len(combos))
    expect(ctx, np.array(o.bin_counts), sure, "%s%s of %s" % (case["c"], tuple(n), m))


def angular(case, ctx):
    """Angles of several turns along every angular axis."""
    n = tuple(case["n"])
    r12 = case["c"] == "r12"
    ax = (1, 2) if r12 else (2,)
    if r12:
        o = freud.pmft.PMFTR12(2.0, n)
        mins, maxs = (0, 0, 0), (2.0, PI2, PI2)
    else:
        o = freud.pmft.PMFTXYT(2.0, 3.0, n)
        mins, maxs = (-2.0, -3.0, 0), (2.0, 3.0, PI2)
    ctx.require(tuple(o.nbins) == n, lambda: "nbins is %s for %s" % (o.nbins, n))
    for a in range(3):
        axis(mins[a], maxs[a], n[a], o.bin_edges[a], o.bin_centers[a], o.bounds[a], ctx, case["c"])
    vec = np.array([[1.1, 0, 0]], np.float32)
    for a in ax:
        A = [float(F(PI2 * k / n[a]) + F(PI2) * F(t)) for k in range(n[a] + 1) for t in (-3, -2, -1, 0, 1, 2)]
        A = [float(u) for x in A for u in ulps(x, 2)] + [x + np.pi / n[a] for x in A] + [
            -1e-9, -1e-30, 1e-30, -0.0, 0.0, 1e-9, 50 * PI2, -50 * PI2]
        other = 0.3
        for x in A:
            x = F(x)
            pts = np.zeros((1, 3), np.float32)
            t1, t2 = (x, F(other)) if (a == 1 or not r12) else (F(other), x)
            o.compute((BOX2, pts), np.array([t1]), query_orientations=np.array([t2 if r12 else F(0)]),
                      neighbors=nlist(vec))
            ctx.step()
            if r12:
                first = [bins_of(1.1, 0, 2.0, n[0])[0], bins_of(float(t1), 0, PI2, n[1], 3e-6 * (1 + abs(x)))[0],
                         bins_of(float(t2) - np.pi, 0, PI2, n[2], 3e-6 * (1 + abs(x)))[0]]
            else:
                first = [bins_of(1.1, -2.0, 2.0, n[0])[0], bins_of(0.0, -3.0, 3.0, n[1])[0],
                         bins_of(float(t1) - np.pi, 0, PI2, n[2], 3e-6 * (1 + abs(x)))[0]]
            expect(ctx, np.array(o.bin_counts),
                   [{int(np.ravel_multi_index(k, n)) for k in itertools.product(*first)}],
                   "%s%s, angle %r along axis %d" % (case["c"], n, float(x), a))
        ctx.state(len(A))


def bond_order(case, ctx):
    n = tuple(case["n"])
    o = freud.environment.BondOrder(n)
    ctx.require(tuple(o.nbins) == n, lambda: "nbins is %s for %s" % (o.nbins, n))
    for a, hi in ((0, PI2), (1, np.pi)):
        axis(0, hi, n[a], o.bin_edges[a], o.bin_centers[a], o.bounds[a], ctx, "bo")
    T = [PI2 * k / n[0] for k in range(n[0] + 1)] + [PI2 * (k + 0.5) / n[0] for k in range(n[0])]
    T += [t + s for t in T for s in (-1e-7, 1e-7)]
    P = [np.pi * k / n[1] for k in range(n[1] + 1)] + [np.pi * (k + 0.5) / n[1] for k in range(n[1])]
    P += [max(0.0, min(np.pi, p + s)) for p in P for s in (-1e-4, 1e-4)]
    pt = np.zeros((1, 3), np.float32)
    q = np.array([[1, 0, 0, 0]], np.float32)
    for scale in (1.0, 1e-3, 77.7):
        D = np.array([[np.cos(t) * np.sin(p), np.sin(t) * np.sin(p), np.cos(p)] for t in T for p in P]
                     + [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [-1, -0.0, 0],
                        [0.0, 0.0, -1], [-0.0, -0.0, 1], [1, -1e-9, 0], [1, -1e-30, 0], [-1, -1e-9, 0]]) * scale
        D = D.astype(np.float32)
        nl = nlist(D)
        o.compute((BOX3, pt), q, neighbors=nl)
        sure = []
        V = D.astype(float)
        rho = np.hypot(V[:, 0], V[:, 1])
        th = np.arctan2(V[:, 1], V[:, 0])
        ph = np.arctan2(rho, V[:, 2])
        for k in range(len(V)):
            tb = set(range(n[0])) if rho[k] < 1e-12 * scale else bins_of(th[k], 0, PI2, n[0], 2e-6)[0]
            # acos loses half of the digits at the poles
            tol = 2e-6 if rho[k] > 1e-2 * scale else 6e-4
            pb = {min(max(int(np.floor(x / (np.pi / n[1]))), 0), n[1] - 1)
                  for x in (ph[k] - tol, ph[k], ph[k] + tol)}
            sure.append({int(np.ravel_multi_index(b, n)) for b in itertools.product(tb, pb)})
        expect(ctx, np.array(o.bin_counts), sure, "BondOrder(%s), scale %g" % (n, scale))
        ctx.state(len(V))
        for k in range(len(V)):
            if k % 7 and k < len(V) - 12:
                continue
            o.compute((BOX3, pt), q, neighbors=nlist(D[k:k + 1]))
            ctx.step()
            expect(ctx, np.array(o.bin_counts), [sure[k]], "BondOrder(%s), direction %s alone" % (
                n, D[k].tolist()))


def big(case, ctx):
    """More than 2^24 in one bin, exactly."""
    m = 2 ** 20
    vec = np.zeros((m, 3), np.float32)
    vec[:, 0] = 0.6
    nl = nlist(vec)
    pt = np.zeros((1, 3), np.float32)
    c = case["of"]
    mk = {"rdf": lambda: freud.density.RDF(4, 1.0), "corr": lambda: freud.density.CorrelationFunction(4, 1.0),
          "xy": lambda: freud.pmft.PMFTXY(1, 1, 3), "bo": lambda: freud.environment.BondOrder(3)}[c]
    args = {"rdf": (), "corr": (np.ones(1),), "xy": (np.zeros(1),), "bo": (np.array([[1, 0, 0, 0]]),)}[c]
    box = BOX2 if c == "xy" else BOX3
    o = mk()
    for k in range(17):
        o.compute((box, pt), *args, neighbors=nl, reset=False)
        ctx.step()
    one = vec[:1] * 0.1
    for k in range(3):
        o.compute((box, pt), *args, neighbors=nlist(one if c == "rdf" else vec[:1]), reset=False)
    ctx.state()
    b = np.array(o.bin_counts)
    want = [17 * m + 3] if c != "rdf" else [3, 17 * m]
    got = b[b > 0].tolist()
    ctx.require(got == want, lambda: "%s: bins hold %s after %s" % (c, got, want))


def check(case, ctx):
    {"rdf": one_d, "corr": one_d, "xy": cartesian, "xyz": cartesian, "r12": angular, "xyt": angular,
     "bo": bond_order, "big": big}[case["c"]](case, ctx)
    ctx.traces += 1
