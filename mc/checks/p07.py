"""Lazy iteration over a query gives the bonds of its list, whatever happens in between."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "6 cells x 5 finders x ball and nearest queries x 0 to 40 query points: whole "
             "iterations; and every sequence of up to 4 or 5 steps (advance one of two live iterators, "
             "restart one, build a list, query with another radius and elsewhere, overwrite the caller's arrays, "
             "drop the references) between two iterations of one object",
    "thorough": "as quick with sequences of up to 6 steps and more point sets",
}
FINDERS = ["aabb", "raw", "link", "linkw", "cell"]
ACTIONS = ["a", "b", "list", "other", "restart", "scribble", "drop"]


def setup(ctx):
    global freud
    import freud


def make(kind, box, p, half):
    L = freud.locality
    if kind == "aabb":
        return L.AABBQuery(box, p)
    if kind == "raw":
        return L.NeighborQuery.from_system((box, p))
    if kind == "cell":
        return L.CellQuery(box, p)
    return L.LinkCell(box, p, cell_width=half * (0.9 if kind == "link" else 0.3))


def cases(tier):
    th = tier == "thorough"
    for b in ("cube8", "generic", "tri", "slab", "sq", "tri2"):
        for kind in FINDERS:
            for p in ("gen:1", "gen:9", "lat:3", "dup:6", "clu:30", "gen:130"):
                for q in ("none", "gen:1:4", "gen:2:4", "gen:7:5", "same", "clu:40:3"):
                    yield {"kind": "whole", "box": b, "f": kind, "p": p, "q": q}
    for b in ("generic", "sq"):
        for kind in FINDERS:
            for mode in ("bb", "nn", "bn"):
                if kind == "cell" and "n" in mode:
                    continue
                for pre in itertools.product(range(len(ACTIONS)), repeat=2):
                    yield {"kind": "steps", "box": b, "f": kind, "mode": mode, "pre": list(pre),
                           "depth": 6 if th else 5 if (b, mode[0]) == ("generic", "b") else 4}


def qargs(mode, half, k=0, exclude=False):
    r = [0.95, 0.6, 0.8][k] * half
    if mode == "b":
        return {"r_max": r, "exclude_ii": exclude}
    return {"num_neighbors": [4, 2, 3][k], "exclude_ii": exclude}


def triples(nl):
    return list(zip(nl.query_point_indices.tolist(), nl.point_indices.tolist(),
                    nl.distances.tolist()))


def same(got, want):
    """Each query point in turn, its bonds in any order."""
    if [g[0] for g in got] != [w[0] for w in want]:
        return False
    f = lambda t: (t[0], t[1], round(t[2], 4))  # noqa: E731
    a, b = sorted(got), sorted(want)
    return len(a) == len(b) and all(
        x[:2] == y[:2] and abs(x[2] - y[2]) <= 1e-5 * (1 + x[2])
        for x, y in zip(sorted(a, key=f), sorted(b, key=f)))


def check(case, ctx):
    cell = ref.Cell(case["box"])
    box = cell.freud()
    half = float(cell.planes.min()) / 2
    if case["kind"] == "whole":
        whole(case, ctx, cell, box, half)
    else:
        steps(case, ctx, cell, box, half)
    ctx.traces += 1


def whole(case, ctx, cell, box, half):
    p = ref.points(cell, case["p"])
    q = p if case["q"] == "same" else np.zeros((0, 3), np.float32) if case["q"] == "none" \
        else ref.points(cell, case["q"])
    for mode, k, ex in itertools.product("bn", range(3), (False, True)):
        if mode == "n" and case["f"] == "cell":
            continue
        qa = qargs(mode, half, k, ex)

        def fail(msg):
            ctx.fail("%s in %s, %s: %s" % (case["f"], case["box"], qa, msg))

        nq = make(case["f"], box, p, half)
        res = nq.query(q, qa)
        first = list(res)
        nl = res.toNeighborList()
        second = list(res)
        third = triples(res.toNeighborList(sort_by_distance=True))
        want = triples(nl)
        ref.check_structure(nl, len(q), len(p), fail, by_distance=False)
        for name, got in (("iterating", first), ("iterating again", second),
                          ("the list sorted by distance", third)):
            if not same(got, want):
                fail("%s gives %d bonds %s..., the list %d %s..." % (
                    name, len(got), got[:4], len(want), want[:4]))
        if isinstance(first[0] if first else (), tuple) is False:
            fail("bonds are not tuples")
        # a query point on its own has the bonds it has among the others
        for a in range(min(len(q), 3)):
            if ex:
                continue
            one = [(a, y, z) for _, y, z in nq.query(q[a], qa)]
            if not same(one, [t for t in want if t[0] == a]):
                fail("query point %d alone gives %s" % (a, one[:6]))
        ctx.step(5)
    ctx.state()


def steps(case, ctx, cell, box, half):
    p0 = ref.generic(cell, 7, 2)
    q0 = ref.generic(cell, 3, 5)
    ma, mb = case["mode"]
    known = {}
    # another system, in another box
    far = ref.Cell((3.0 * cell.L[0], 2.5 * cell.L[1], 2.0 * cell.L[2] if not cell.is2d else 0, 0.1, 0, 0))
    fp, fhalf = ref.generic(far, 9, 4), float(far.planes.min()) / 2
    fnq = make(case["f"], far.freud(), fp, fhalf)
    known["far"] = triples(fnq.query(fp[:2], qargs(mb, fhalf, 2)).toNeighborList())
    for name, m, k in (("a", ma, 0), ("b", mb, 1), ("other", mb, 2)):
        nq = make(case["f"], box, p0.copy(), half)
        known[name] = triples(nq.query(q0, qargs(m, half, k)).toNeighborList())
    free = case["depth"] - len(case["pre"])
    for n in range(free + 1):
        for rest in itertools.product(range(len(ACTIONS)), repeat=n):
            word = case["pre"] + list(rest)
            p, q = p0.copy(), q0.copy()
            nq = make(case["f"], box, p, half)
            ra = nq.query(q, qargs(ma, half, 0))
            rb = nq.query(q, qargs(mb, half, 1))
            its = {"a": iter(ra), "b": iter(rb)}
            got = {"a": [], "b": []}

            def fail(msg):
                names = [ACTIONS[x] for x in word]
                ctx.fail("%s in %s, %s, steps %s: %s" % (case["f"], case["box"], case["mode"],
                                                         names, msg))

            dropped = False
            for x in word:
                op = ACTIONS[x]
                if op in its:
                    t = next(its[op], None)
                    if t is not None:
                        got[op].append(t)
                elif op == "list":
                    if not same(triples(ra.toNeighborList()), known["a"]):
                        fail("the list differs")
                if op == "other":
                    t = list(fnq.query(fp[:2], qargs(mb, fhalf, 2)))
                    if not same(t, known["far"]):
                        fail("a query elsewhere gives %s, expected %s" % (t[:4], known["far"][:4]))
                if op == "other" and not dropped:
                    t = triples(nq.query(q0, qargs(mb, half, 2)).toNeighborList())
                    if not same(t, known["other"]):
                        fail("another query gives %s, expected %s" % (t[:4], known["other"][:4]))
                elif op == "restart":
                    its["a"], got["a"] = iter(ra), []
                elif op == "scribble":
                    p[:] = 0.125
                    q[:] = -0.25
                elif op == "drop":
                    nq = None
                    dropped = True
                ctx.step()
            if dropped:
                rb = None
            for name in ("a", "b"):
                got[name] += list(its[name])
                if not same(got[name], known[name]):
                    fail("iterator %s gives %s, expected %s" % (name, got[name][:6],
                                                                known[name][:6]))
            ctx.state()
