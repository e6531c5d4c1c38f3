"""What was read stays as it was read, whatever is computed, changed or destroyed afterwards."""
import ctypes
import gc
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "45 computations, neighbor lists, queries and boxes x 4 pairs of systems (one of equal sizes): every sequence of "
             "up to 3 events (computing again on either system or on top, reading, destroying the object "
             "or its inputs, allocating memory) after reading every result; every result held by reference "
             "and compared after each event, freed memory being overwritten at once",
    "thorough": "as quick with sequences of up to 4 events",
}
HANG = 600
C = None


def setup(ctx):
    global C, freud
    import freud
    C = zoo.catalog()
    C.update(zoo.nl_entries())
    gc.collect()
    gc.freeze()
    # freed memory is overwritten at once, so that dangling results show
    ctypes.CDLL(None).mallopt(-6, 0x5A)


def cases(tier):
    depth = 4 if tier == "thorough" else 3
    from mc.checks import p13
    for name in sorted(C):
        e = C[name]
        for d in e.dims:
            for k in (0, 1, 2, 4):
                pr = p13.pair(e, d, k)
                if pr is None or (pr[0].q is not None and not e.query):
                    continue
                yield {"e": name, "d": d, "k": k, "depth": depth}
    for b in ("generic", "sq"):
        for how in ("query", "arrays", "all", "copy", "filtered"):
            yield {"list": how, "box": b, "depth": depth}
        for f in ("aabb", "link", "cell", "raw"):
            yield {"finder": f, "box": b}


def hold(x, out):
    """Every array reachable from a result, by reference."""
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, freud.locality.NeighborList):
        out += [x.query_point_indices, x.point_indices, x.vectors, x.distances, x.weights,
                x.neighbor_counts, x.segments, x[:]]
    elif isinstance(x, freud.box.Box):
        out += [x.L, x.to_matrix(), x.periodic]
    elif isinstance(x, (list, tuple)):
        for y in x:
            hold(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            hold(y, out)


def views(e, o):
    out = []
    if isinstance(o, dict):
        hold(o, out)
    else:
        for k in e.reads:
            hold(getattr(o, k), out)
    return out


def same(a, b):
    return a.shape == b.shape and np.array_equal(a.view(np.uint8) if a.dtype.kind == "c" else a, b.view(
        np.uint8) if b.dtype.kind == "c" else b, equal_nan=a.dtype.kind == "f")


def check(case, ctx):
    if "list" in case:
        return lists(case, ctx)
    if "finder" in case:
        return finders(case, ctx)
    from mc.checks import p13
    e = C[case["e"]]
    ops = ["A", "B", "r", "del", "gc"] + (["+A", "+B"] if e.acc else [])
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if "del" in seq[:-1] and seq[seq.index("del") + 1:] != ("gc",):
                continue
            A, B = p13.pair(e, case["d"], case["k"])
            sysm = {"A": A, "B": B}
            o = e.make(A)
            e.run(o, A)
            held = views(e, o)
            kept = [v.copy() for v in held]
            for n, op in enumerate(seq):
                ctx.step()
                if op == "r":
                    e.read(o)
                elif op == "gc":
                    sysm["A"] = sysm["B"] = A = B = None
                    gc.collect()
                    junk = [np.full(s, 7.5) for s in (1, 3, 9, 20, 40, 90, 200, 400)]
                    del junk
                    if o is None:
                        continue
                    A, B = p13.pair(e, case["d"], case["k"])
                    sysm = {"A": A, "B": B}
                elif op == "del":
                    o = None
                elif op[0] == "+":
                    e.run(o, sysm[op[1]], reset=False)
                    e.read(o)
                else:
                    e.run(o, sysm[op])
                    if n == len(seq) - 1:
                        e.read(o)
                for t, (x, y) in enumerate(zip(held, kept)):
                    ctx.require(same(x, y), lambda: "%s: a result read earlier (array %d of %s) changed "
                                "after %s" % (e.name, t, e.reads, " ".join(seq[:n + 1])))
            ctx.state()
    ctx.traces += 1


def lists(case, ctx):
    """Arrays taken from a list and lists taken from objects."""
    L = freud.locality

    def make():
        s = zoo.System(case["box"], "gen:9")
        aq = L.AABBQuery(s.box, s.p)
        nl = aq.query(s.p, s.nbr("ball")).toNeighborList()
        if case["list"] == "arrays":
            nl = L.NeighborList.from_arrays(s.n, s.n, nl.query_point_indices, nl.point_indices,
                                            nl.vectors, nl.weights)
        elif case["list"] == "all":
            nl = L.NeighborList.all_pairs((s.box, s.p))
        elif case["list"] == "copy":
            nl = nl.copy()
        elif case["list"] == "filtered":
            f = L.FilterRAD(allow_incomplete_shell=True).compute(aq, neighbors=s.nbr("ball"))
            nl = f.filtered_nlist
        return s, nl

    def junk():
        gc.collect()
        x = [np.full(s, 7.5) for s in (1, 3, 9, 20, 40, 90, 200, 400)]
        del x

    def use(nl, s):
        freud.density.RDF(5, s.r).compute((s.box, s.p), neighbors=nl).rdf
    ops = {"copy": lambda nl, s: nl.copy().filter(np.zeros(len(nl), bool)),
           "sortcopy": lambda nl, s: nl.copy().sort(by_distance=True),
           "use": use, "junk": lambda nl, s: junk(),
           "read": lambda nl, s: (nl.segments, nl.neighbor_counts, nl.distances),
           "find": lambda nl, s: nl.find_first_index(2)}
    inplace = {"filter": lambda nl, s: nl.filter(np.arange(len(nl)) % 2 == 0),
               "filter_r": lambda nl, s: nl.filter_r(0.8 * s.r, 0.1)}
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            for last in [None, "del"] + sorted(inplace):
                s, nl = make()
                held = []
                hold(nl, held)
                kept = [v.copy() for v in held]
                for op in seq:
                    ops[op](nl, s)
                    ctx.step()
                if last == "del":
                    s = nl = None
                    junk()
                elif last:
                    inplace[last](nl, s)
                    nl.segments
                    junk()
                for t, (x, y) in enumerate(zip(held, kept)):
                    ctx.require(same(x, y), lambda: "list (%s): array %d taken from it changed after %s"
                                % (case["list"], t, " ".join(seq + ((last,) if last else ()))))
                ctx.state()
    ctx.traces += 1


def finders(case, ctx):
    """Queries and what they refer to outlive the names given to them."""
    def junk():
        gc.collect()
        x = [np.full(s, 7.5, np.float32) for s in (1, 3, 9, 20, 27, 40, 90, 200, 400)]
        del x
    for n, m in itertools.product((3, 9, 27), (1, 4, 9)):
        for order in itertools.permutations(("query", "points", "box", "finder", "result"), 4):
            s = zoo.System(case["box"], "gen:%d" % n, "gen:%d:5" % m)
            p, q, box = s.p.copy(), s.q.copy(), s.cell.freud()
            r = s.r
            s.p = p
            s.box = box
            nq = s.system(freud, case["finder"])
            args = {"r_max": r}
            res = nq.query(q, args)
            want = [t for t in res]
            pts = nq.points
            bx = nq.box
            keep = pts.copy(), bx.L.copy()
            it = iter(res)
            first = next(it, None)
            s = None
            for x in order:
                if x == "query":
                    q = None
                elif x == "points":
                    p = None
                elif x == "box":
                    box = None
                elif x == "finder":
                    nq = None
                else:
                    res = None
                junk()
                ctx.step()
                if res is not None:
                    ctx.require([t for t in res] == want, lambda: "%s: the query changed after dropping "
                                "%s" % (case["finder"], order))
                ctx.require(same(pts, keep[0]) and same(bx.L, keep[1]), lambda: "%s: points or box "
                            "changed after dropping %s" % (case["finder"], order))
            got = ([first] if first is not None else []) + list(it)
            ctx.require(got == want, lambda: "%s: the iterator changed after dropping %s" % (
                case["finder"], order))
            ctx.state()
    ctx.traces += 1
