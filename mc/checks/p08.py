"""A NeighborList holds exactly what its history says, through every sequence of operations."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "every from_arrays input with up to 2 query points, 3 points and 3 bonds (indices one "
             "out of range included), every filter mask and filter_r range of small lists, every "
             "history of up to 3 operations out of 15 from 6 lists (4 for the first two), "
             "all_pairs of up to 9x9 points in 5 boxes, lists of up to 5000 bonds",
    "thorough": "as quick with 4 bonds and histories of up to 5 operations",
}


def setup(ctx):
    global freud
    import freud


# --- the model: a list of bonds (i, j, vector, distance, weight) and two sizes --------------------

def norm32(v):
    return np.sqrt((np.asarray(v, np.float32).astype(float) ** 2).sum(-1))


def bonds_of(n, nq, npt, seed, gaps=False):
    """A fixed list: n bonds, irregular counts, distinct vectors, some equal distances."""
    rs = np.random.RandomState(seed)
    qi = np.sort(rs.randint(0, nq, n))
    if gaps:
        qi = np.sort(rs.choice([x for x in range(nq) if x % 3 != 1 or nq < 3], n))
    pj = rs.randint(0, npt, n)
    v = rs.randint(-3, 4, (n, 3)).astype(np.float32) * 0.5
    v[(v == 0).all(1)] = [0.5, 0, 0]
    w = (rs.randint(1, 9, n) * 0.25).astype(np.float32)
    return nq, npt, [(int(a), int(b), tuple(map(float, c)), float(d))
                     for a, b, c, d in zip(qi, pj, v, w)]


LISTS = {
    "small": (3, 4, [(0, 2, (1.0, 0, 0), 1.0), (0, 1, (0.5, 0, 0), 2.0), (2, 3, (0, 1.5, 0), 3.0),
                     (2, 0, (0, 0, -0.5), 0.5)]),
    "gap": (5, 3, [(1, 2, (2.0, 0, 0), 1.0), (1, 0, (0, 1.0, 0), 0.25), (1, 0, (0.5, 0, 0), 4.0),
                   (3, 1, (0, 0, 1.5), 2.0), (3, 0, (1.5, 0, 0), 1.0)]),
    "empty": (3, 2, []),
    "none": (0, 4, []),
    "twelve": bonds_of(12, 5, 6, 3, True),
    "forty": bonds_of(40, 9, 11, 5, True),
    "big": bonds_of(700, 60, 50, 6, True),
    "huge": bonds_of(5000, 900, 400, 7, True),
}
OPS = ["even", "odd", "half", "drop_first", "none", "all", "r1", "r2", "r3", "bad", "sort", "dsort",
       "read", "fork", "into"]
MASKS = ("even", "odd", "half", "drop_first", "none", "all")


def mask(op, bonds):
    n = len(bonds)
    k = np.arange(n)
    if op == "even":
        return k % 2 == 0
    if op == "odd":
        return k % 3 == 1
    if op == "half":
        return k >= n // 2
    if op == "drop_first":
        return np.array([b[0] != bonds[0][0] for b in bonds], bool)
    return np.zeros(n, bool) if op == "none" else np.ones(n, bool)


RANGES = {"r1": (1.5, 0.0), "r2": (1.75, 1.0), "r3": (0.5, 0.25)}


def make(spec):
    nq, npt, b = spec
    i = np.array([x[0] for x in b], np.uint32)
    j = np.array([x[1] for x in b], np.uint32)
    v = np.array([x[2] for x in b], np.float32).reshape(-1, 3)
    w = np.array([x[3] for x in b], np.float32)
    return freud.locality.NeighborList.from_arrays(nq, npt, i, j, v, w)


def dist(b):
    return float(norm32(b[2]))


def compare(nl, nq, npt, bonds, fail):
    """Everything observable, and consistent with the model."""
    i, j, v, d, w = ref.check_structure(nl, nq, npt, fail)
    if len(i) != len(bonds):
        fail("%d bonds, expected %d" % (len(i), len(bonds)))
    if len(bonds):
        mi = np.array([b[0] for b in bonds])
        mj = np.array([b[1] for b in bonds])
        mv = np.array([b[2] for b in bonds])
        mw = np.array([b[3] for b in bonds])
        for name, a, b in (("query_point_indices", i, mi), ("point_indices", j, mj),
                           ("vectors", v, mv), ("weights", w, mw)):
            if not np.array_equal(a, b):
                fail("%s %s, expected %s" % (name, a.tolist()[:12], b.tolist()[:12]))
        if np.abs(d - norm32(mv)).max() > 1e-6 * 8:
            fail("distances %s" % d.tolist()[:12])
        pairs = np.array(nl[:], int)
        if not np.array_equal(pairs, np.stack([mi, mj], 1)) or tuple(nl[0]) != (mi[0], mj[0]) \
                or tuple(nl[-1]) != (mi[-1], mj[-1]):
            fail("indexing the list does not give its pairs")
    elif np.array(nl[:]).shape != (0, 2):
        fail("pairs of an empty list have shape %s" % (np.array(nl[:]).shape,))
    for a in (range(nq + 2) if nq < 100 else range(0, nq + 2, 37)):
        f = nl.find_first_index(a)
        want = int(np.searchsorted(i, a, side="left"))
        if f != want:
            fail("find_first_index(%d) = %d, expected %d in %s" % (a, f, want, i.tolist()[:20]))


def order(bonds, by_distance):
    if by_distance:
        return sorted(bonds, key=lambda b: (b[0], dist(b), b[1]))
    return sorted(bonds, key=lambda b: (b[0], b[1]))


def sorted_ok(nl, bonds, by_distance, fail):
    """Same bonds, documented order; ties beyond it in any order. Gives the list as it now is."""
    i, j, v, d, w = ref.nlist_arrays(nl)
    got = [(int(a), int(b), tuple(map(float, c)), float(e)) for a, b, c, e in zip(i, j, v, w)]
    norm = lambda x: (x[0], x[1], tuple(y + 0.0 for y in x[2]), x[3])  # noqa: E731
    if sorted(map(norm, got)) != sorted(map(norm, bonds)):
        fail("sorting changed the bonds of the list")
    key = (lambda b: (b[0], round(dist(b), 5), b[1])) if by_distance else (lambda b: (b[0], b[1]))
    if [key(b) for b in got] != sorted(map(key, got)):
        fail("not sorted %s" % ("by distance" if by_distance else "by point index"))
    return got


def cases(tier):
    th = tier == "thorough"
    # construction: every small input, valid or not
    for nq, npt in ((1, 1), (2, 1), (1, 3), (2, 3), (3, 2)):
        for n in range(0, 5 if th else 4):
            if n == 4 and nq * npt > 4:
                continue
            # split over the first pair
            for first in range((nq + 1) * (npt + 1) if n else 1):
                yield {"kind": "from", "nq": nq, "np": npt, "n": n, "first": first}
    for name in ("small", "gap"):
        yield {"kind": "masks", "list": name}
    yield {"kind": "masks", "list": "twelve"}
    for name in LISTS:
        depth = 3 if name in ("small", "gap", "twelve", "empty", "none", "forty") else 2
        if name in ("small", "gap"):
            depth = 4
        if th:
            depth += 1
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            yield {"kind": "hist", "list": name, "pre": [a, b], "depth": depth}
        yield {"kind": "hist", "list": name, "pre": [], "depth": 1}
    for b in ("cube8", "slab", "generic", "sq", "tri2"):
        for npt, nq in itertools.product((1, 2, 3, 4, 5, 7, 9), (1, 2, 3, 5, 8, 9)):
            yield {"kind": "all", "box": b, "np": npt, "nq": nq}
        for npt, nq in ((40, 17), (17, 40), (63, 64), (64, None), (130, None)):
            yield {"kind": "all", "box": b, "np": npt, "nq": nq}


def check(case, ctx):
    globals()["check_" + case["kind"]](case, ctx)


def check_from(case, ctx):
    """from_arrays accepts exactly the valid inputs, and stores them."""
    nq, npt, n = case["nq"], case["np"], case["n"]
    alpha = list(itertools.product(range(nq + 1), range(npt + 1)))
    first = [alpha[case["first"]]] if n else []
    for rest in itertools.product(alpha, repeat=max(0, n - 1)):
        pairs = first + list(rest)
        i = [a for a, _ in pairs]
        valid = all(a < nq and b < npt for a, b in pairs) and i == sorted(i)
        bonds = [(a, b, (0.5 * k, 1.0, -0.25 * a), 1.0 + k) for k, (a, b) in enumerate(pairs)]

        def fail(msg):
            ctx.fail("from_arrays(%d, %d, %s): %s" % (nq, npt, pairs, msg))

        try:
            nl = make((nq, npt, bonds))
        except ValueError:
            if valid:
                fail("valid input rejected")
            ctx.step()
            continue
        if not valid:
            fail("invalid input accepted")
        compare(nl, nq, npt, bonds, fail)
        ctx.state()
        ctx.step()
    ctx.traces += 1


def check_masks(case, ctx):
    """Every mask, and every range between the distances of the list."""
    nq, npt, bonds = LISTS[case["list"]]
    n = len(bonds)

    def fail(msg):
        ctx.fail("%s: %s" % (case["list"], msg))

    for m in itertools.product((False, True), repeat=n):
        nl = make(LISTS[case["list"]])
        for rep in range(2):          # with the counts cached, and not
            if rep:
                nl = make(LISTS[case["list"]])
                nl.neighbor_counts, nl.segments
            forms = (np.array(m), list(m)) if rep else (np.array(m, np.int64),)
            for form in forms:
                nl = nl.copy() if form is not forms[0] else nl
                t = nl.copy()
                if t.filter(form) is not t:
                    fail("filter does not return the list")
                compare(t, nq, npt, [b for b, k in zip(bonds, m) if k],
                        lambda s: fail("filter %s: %s" % (m, s)))
                ctx.step()
        compare(nl, nq, npt, bonds, lambda s: fail("a copy was filtered with it: " + s))
        ctx.state()
    # shorter masks are refused
    for k in range(n):
        nl = make(LISTS[case["list"]])
        try:
            nl.filter(np.ones(k, bool))
            fail("a mask of %d for %d bonds was accepted" % (k, n))
        except ValueError:
            compare(nl, nq, npt, bonds, fail)
    ds = sorted({dist(b) for b in bonds})
    grid = sorted({0.0, 10.0} | set(ds) | {x + 0.1 for x in ds} | {x - 0.1 for x in ds})
    for lo, hi in itertools.product(grid, repeat=2):
        nl = make(LISTS[case["list"]])
        try:
            nl.filter_r(hi, lo)
        except ValueError:
            if hi > lo >= 0:
                fail("filter_r(%g, %g) refused" % (hi, lo))
            compare(nl, nq, npt, bonds, fail)
            continue
        if not hi > lo >= 0:
            fail("filter_r(%g, %g) accepted" % (hi, lo))
        e = 1e-6
        may = [b for b in bonds if lo - e <= dist(b) < hi + e]
        must = [b for b in may if lo + e <= dist(b) < hi - e or
                dist(b) == float(np.float32(dist(b))) and np.float32(lo) <= dist(b) < np.float32(hi)]
        i, j, v, d, w = ref.nlist_arrays(nl)
        got = [(int(a), int(b), tuple(map(float, c)), float(x)) for a, b, c, x in zip(i, j, v, w)]
        if [b for b in may if b in got] != got or not all(b in got for b in must) or \
                [b for b in must if b not in may] or \
                [b for b in got if b not in must and dist(b) == float(np.float32(dist(b)))]:
            fail("filter_r(%g, %g) kept %s of distances %s" % (hi, lo, d.tolist(), ds))
        compare(nl, nq, npt, got, fail)
        ctx.step()
    ctx.traces += 1


def run_history(name, ops, ctx):
    nq, npt, bonds = LISTS[name]
    bonds = list(bonds)
    nl = make(LISTS[name])
    shelf = []
    views = []

    def fail(msg):
        ctx.fail("%s after %s: %s" % (name, [OPS[o] for o in ops], msg))

    for o in ops:
        op = OPS[o]
        if op in MASKS:
            m = mask(op, bonds)
            nl.filter(m)
            bonds = [b for b, k in zip(bonds, m) if k]
        elif op in RANGES:
            hi, lo = RANGES[op]
            nl.filter_r(hi, lo)
            bonds = [b for b in bonds if lo <= dist(b) < hi]
        elif op == "bad":
            for args in ((0,), (-1,), (1, 1), (1, 2), (1, -0.5)):
                try:
                    nl.filter_r(*args)
                    fail("filter_r%s accepted" % (args,))
                except ValueError:
                    pass
        elif op in ("sort", "dsort"):
            nl.sort(by_distance=op == "dsort")
            bonds = sorted_ok(nl, bonds, op == "dsort", fail)
        elif op == "read":
            nl.neighbor_counts, nl.segments
            views.append(nl.neighbor_counts)
        elif op == "fork":
            new = nl.copy()
            shelf.append((nl, nq, npt, bonds))
            nl = new
        elif op == "into":
            # the contents of another list, copied over this one
            src = make(LISTS["gap" if name != "gap" else "small"])
            if len(bonds) % 2:
                src.segments
            old = nl.copy()
            shelf.append((old, nq, npt, bonds))
            if nl.copy(src) is not nl:
                fail("copy(other) does not return the list")
            nq, npt, bonds = LISTS["gap" if name != "gap" else "small"]
            shelf.append((src, nq, npt, bonds))
        ctx.step()
    compare(nl, nq, npt, bonds, fail)
    for old, a, b, c in shelf:
        compare(old, a, b, c, lambda s: fail("an independent copy changed: " + s))
    ctx.state()


def check_hist(case, ctx):
    pre, depth = case["pre"], case["depth"]
    if len(pre) > depth:
        return
    if depth == 1:
        run_history(case["list"], [], ctx)
        for o in range(len(OPS)):
            run_history(case["list"], [o], ctx)
        return
    for n in range(0, depth - len(pre) + 1):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            run_history(case["list"], pre + list(rest), ctx)
            ctx.traces += 1


def check_all(case, ctx):
    cell = ref.Cell(case["box"])
    box = cell.freud()
    p = ref.generic(cell, case["np"], 3)
    for exclude in (True, False):
        for form in range(3):
            q = p if case["nq"] is None else ref.generic(cell, case["nq"], 4)
            system = [(box, p), freud.locality.AABBQuery(box, p), (box, p)][form]
            if case["nq"] is None:
                nl = freud.locality.NeighborList.all_pairs(system, exclude_ii=exclude)
            else:
                nl = freud.locality.NeighborList.all_pairs(system, q, exclude)

            def fail(msg):
                ctx.fail("all_pairs in %s, %s, exclude_ii=%s: %s" % (
                    case["box"], (case["np"], case["nq"]), exclude, msg))

            i, j, v, d, w = ref.check_structure(nl, len(q), len(p), fail, by_distance=False)
            want = [(a, b) for a in range(len(q)) for b in range(len(p))
                    if not (exclude and a == b)]
            if list(zip(i.tolist(), j.tolist())) != want:
                fail("pairs %s..., expected %s..." % (list(zip(i, j))[:8], want[:8]))
            if np.any(w != 1):
                fail("weights are not 1")
            dv = np.asarray(p, float)[j] - np.asarray(q, float)[i]
            f = (v - dv) @ cell.hinv.T
            if len(f) and np.abs(f - np.round(f)).max() > 1e-4:
                fail("a vector is no image of point - query point")
            g = v @ cell.hinv.T
            if len(g) and np.abs(g[:, :cell.dim]).max() > 0.5 + 1e-4:
                fail("a vector is not wrapped into the box")
            for a in range(len(q) + 1):
                if nl.find_first_index(a) != np.searchsorted(i, a):
                    fail("find_first_index(%d)" % a)
            ctx.step()
    ctx.state()
    ctx.traces += 1
