"""No parallel loop has a data race, and concurrent set merging is right under every interleaving."""
import itertools

import numpy as np

from mc import ref, zoo
from mc.sched import Sched

VARIANTS = ["inst"]
BOUNDS = {
    "quick": "races: every computation of the catalogue x 6 systems x histories of one or two "
             "computations, all pairs of iterations of every loop compared by the happens-before "
             "relation, in ascending and descending order; interleavings: clusters of all 64 graphs on "
             "4 points and 60 on 5 to 7, link-cell queries, every schedule with up to 2 departures from "
             "running the tasks in order (preemptions at atomic operations, other next tasks), and one "
             "spurious failure of a compare-and-swap",
    "thorough": "as quick with up to 3 departures on 4 points and 2 on 5 to 7, and every graph on 5 points",
}
HANG = 400
C = None


def setup(ctx):
    global C, S, freud
    import freud
    C = zoo.catalog()
    C.update(zoo.nl_entries())
    S = Sched()


def cases(tier):
    th = tier == "thorough"
    for name in sorted(C):
        e = C[name]
        for box, p, q in (("generic", "gen:6", None), ("cube8", "clu:7", "gen:5:4"),
                          ("tri2", "gen:7", None), ("sq", "dup:6", "gen:5:4"),
                          ("cube8", "lat:3", None), ("neg2", "gen:30", "gen:9:4"),
                          ("steep", "gen:30", None)):
            s = ref.Cell(box)
            if ("2" if s.is2d else "3") not in e.dims or (q and not e.query):
                continue
            for nbr in (("ball", "near", "list") if e.nbr else ("ball",)):
                yield {"k": "race", "e": name, "box": box, "p": p, "q": q, "nbr": nbr}
    pairs = list(itertools.combinations(range(4), 2))
    for m in range(64):
        yield {"k": "graph", "n": 4, "edges": [e for b, e in enumerate(pairs) if m >> b & 1],
               "both": m % 2 == 0 and bin(m).count("1") <= 2,
               "bound": (3 if bin(m).count("1") <= 3 else 2) if th else
               2 if bin(m).count("1") <= 4 else 1}
    rs = np.random.RandomState(4)
    for t in range(60):
        n = 5 + t % 3
        pairs = list(itertools.combinations(range(n), 2))
        e = [pairs[k] for k in sorted(rs.choice(len(pairs), rs.randint(2, 6), replace=False))]
        yield {"k": "graph", "n": n, "edges": [(b, a) if (a + b + t) % 2 else (a, b)
                                               for a, b in e], "both": False,
               "bound": 2 if th else 1 + (len(e) <= 3)}
    if th:
        pairs = list(itertools.combinations(range(5), 2))
        for m in range(1024):
            yield {"k": "graph", "n": 5, "edges": [e for b, e in enumerate(pairs) if m >> b & 1],
                   "both": False, "bound": 2 if bin(m).count("1") <= 4 else 1}
    for box in ("cube8", "sq", "tri"):
        for p in ("gen:4", "clu:4", "gen:3:8"):
            for nb in ("ball", "near"):
                yield {"k": "link", "box": box, "p": p, "nbr": nb, "bound": 2 if th else 1}


def check(case, ctx):
    globals()["check_" + case["k"]](case, ctx)


def check_race(case, ctx):
    e = C[case["e"]]
    s = zoo.System(case["box"], case["p"], case["q"], neighbors=case["nbr"])
    if not zoo.suits(e, s):
        return
    if case["nbr"] == "list":
        k = {"r_max": s.r, "exclude_ii": s.q is None}
        s.neighbors = freud.locality.AABBQuery(s.box, s.p).query(
            s.p if s.q is None else s.q, k).toNeighborList()

    def run():
        o = e.make(s)
        e.run(o, s, reset=False if e.acc else None)
        if e.acc:
            e.run(o, s, reset=False)
        return e.read(o)

    base, exc, _ = S.run(run, Sched.FIXED)
    if exc:
        raise exc
    for rev in (0, 1):
        got, exc, _ = S.run(run, Sched.RACE, (), rev)
        if exc:
            raise exc
        ctx.state(S.max_tasks)
        ctx.step(int(S.accesses))
        r = S.races()
        if r:
            ctx.fail("%s in %s (%s, %s, %s): data race: %s" % (
                case["e"], case["box"], case["p"], case["q"], case["nbr"], r[0]))
        d = zoo.differ(base, got)
        if d:
            ctx.fail("%s in %s (%s): one task per iteration changes %s" % (
                case["e"], case["box"], case["p"], d))
        ctx.count("loops_checked_for_races", S.regions)
    ctx.traces += 1


def explore(run, want, bound, spurious, ctx, what, differ):
    """All schedules with at most bound departures (a preemption, or another task than the next one
    after a task's end) from running the tasks one after the other, depth first."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        got, exc, tr = S.run(run, Sched.INTERLEAVE, prefix, bound, spurious)
        n += 1
        ctx.state()
        ctx.step(len(tr))
        if S.livelock:
            ctx.fail("%s: no progress under schedule %s" % (what, list(prefix)))
        if S.diverged:
            raise RuntimeError("schedule diverged")
        if exc:
            ctx.fail("%s: schedule %s: %s: %s" % (what, list(prefix), type(exc).__name__, exc))
        d = differ(want, got)
        if d:
            ctx.fail("%s: schedule %s: %s" % (what, list(prefix), d))
        if sum(1 for c in prefix if c) >= bound + spurious:
            continue
        for k in range(len(prefix), len(tr)):
            for c in range(1, tr[k][0]):
                stack.append(prefix + (0,) * (k - len(prefix)) + (c,))
    ctx.count("schedules", n)
    ctx.traces += 1


def check_graph(case, ctx):
    n, E = case["n"], [tuple(e) for e in case["edges"]]
    B = sorted(set(E + [(b, a) for a, b in E])) if case["both"] else sorted(E)
    box = freud.box.Box.cube(8)
    pts = ref.points(ref.Cell("cube8"), "gen:%d" % n)
    i = np.array([b[0] for b in B], np.uint32)
    j = np.array([b[1] for b in B], np.uint32)
    nl = freud.locality.NeighborList.from_arrays(n, n, i, j, np.ones((len(B), 3), np.float32))
    # clusters of the graph, largest first, then by smallest member
    comp = list(range(n))
    for _ in range(n):
        for a, b in B:
            comp[a] = comp[b] = min(comp[a], comp[b])
    groups = sorted((sorted(x for x in range(n) if comp[x] == c) for c in set(comp)),
                    key=lambda g: (-len(g), g[0]))
    want = [0] * n
    for k, g in enumerate(groups):
        for x in g:
            want[x] = k

    def run():
        c = freud.cluster.Cluster()
        c.compute((box, pts), neighbors=nl)
        return np.array(c.cluster_idx).tolist(), c.num_clusters

    explore(run, (want, len(groups)), case["bound"], 0, ctx, "graph %s" % E,
            lambda a, b: None if a == b else "clusters %s, expected %s" % (b, a))
    if len(B) <= 3:
        explore(run, (want, len(groups)), 1, 1, ctx, "graph %s with a spurious failure" % E,
                lambda a, b: None if a == b else "clusters %s, expected %s" % (b, a))


def check_link(case, ctx):
    s = zoo.System(case["box"], case["p"])

    def run():
        lc = freud.locality.LinkCell(s.box, s.p, cell_width=s.half * 0.6)
        nl = lc.query(s.p, s.nbr(case["nbr"])).toNeighborList()
        i, j, v, d, w = ref.nlist_arrays(nl)
        return {"i": i, "j": j, "v": v, "d": d}

    want, exc, _ = S.run(run, Sched.FIXED)
    explore(run, want, case["bound"], 0, ctx, "LinkCell %s %s" % (case["box"], case["p"]),
            zoo.differ)
