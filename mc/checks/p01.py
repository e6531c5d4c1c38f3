"""No result depends on how the work is split over threads: every partition of every loop, explored."""
import itertools
import os

import numpy as np

from mc import ref, zoo
from mc.sched import Sched

BOUNDS = {
    "quick": "45 computations x 5 systems x ball and nearest neighbours: every partition of up to 2 "
             "loops of a history of up to 3 computations and reads at 4 or 5 points (all cuts of the "
             "range, 4 assignments of pieces to workers and orders each), of any one loop at 13 and 70 "
             "points, and the finest and fixed partitions of all loops together",
    "thorough": "as quick with up to 3 loops at 3 and 4 points, and 2 loops at 6 and 13 points",
}
HANG = 300
C = None


def setup(ctx):
    global C, S
    C = zoo.catalog()
    C.update(zoo.nl_entries())
    S = Sched()


def names():
    # without importing the library in the parent
    return sorted(C)


def system(box, p, q, nbr):
    return zoo.System(box, p, q, neighbors=nbr)


def cases(tier):
    th = tier == "thorough"
    for name in names():
        e = C[name]
        for box, p, q in (("generic", "gen:4", None), ("cube8", "clu:5", "gen:4:4"),
                          ("tri2", "gen:5", None), ("sq", "dup:4", "gen:5:4"),
                          ("cube4", "gen:4:5", None)):
            s = ref.Cell(box)
            if ("2" if s.is2d else "3") not in e.dims or (q and not e.query):
                continue
            for nbr in (("ball", "near", "lumpy") if e.nbr else ("ball",)):
                if nbr == "lumpy":
                    yield {"e": name, "box": box, "p": p, "q": q, "nbr": nbr, "hist": "one", "dev": 1, "pos": None}
                    continue
                yield {"e": name, "box": box, "p": p, "q": q, "nbr": nbr, "hist": "one",
                       "dev": 3 if th else 2, "pos": None}
                for h in ("again", "accum") if e.acc else ("again",):
                    yield {"e": name, "box": box, "p": p, "q": q, "nbr": nbr, "hist": h,
                           "dev": 2 if th else 1, "pos": None}
        for box, p, q in (("generic", "gen:13", None), ("tri2", "gen:13", "gen:6:4"),
                          ("cube8", "lat:4", None), ("sq", "clu:70", "gen:14:4")):
            s = ref.Cell(box)
            if ("2" if s.is2d else "3") not in e.dims or (q and not e.query):
                continue
            yield {"e": name, "box": box, "p": p, "q": q, "nbr": "ball",
                   "hist": "accum" if e.acc else "one",
                   "dev": 2 if th and "13" in p else 1, "pos": None}
            if e.nbr:
                yield {"e": name, "box": box, "p": p, "q": q, "nbr": "lumpy", "hist": "one", "dev": 1, "pos": None}


def history(case, e):
    a = system(case["box"], case["p"], case["q"], case["nbr"])
    b = system(case["box"], case["p"].split(":")[0] + ":" + case["p"].split(":")[1] +
               (":9" if not case["p"].startswith(("lat", "dup")) else ""), case["q"], case["nbr"])
    if not zoo.suits(e, a):
        return None

    def run():
        o = e.make(a)
        out = {}
        if case["hist"] == "one":
            e.run(o, a)
        elif case["hist"] == "again":
            e.run(o, b)
            e.read(o)
            e.run(o, a)
        else:
            e.run(o, a, reset=False)
            out.update({"first." + k: v for k, v in e.read(o).items()})
            e.run(o, b, reset=False)
        out.update(e.read(o))
        return out

    return run


def check(case, ctx):
    e = C[case["e"]]
    run = history(case, e)
    if run is None:
        return
    base, exc, trace = S.run(run, Sched.PLANS)
    if exc is not None:
        raise exc

    def one(prefix, mode=Sched.PLANS, bound=0):
        got, exc, tr = S.run(run, mode, prefix, bound)
        ctx.state()
        ctx.step(len(tr) + 1)
        if exc is not None:
            ctx.fail("%s %s: under plan %s: %s: %s" % (case["e"], case, list(prefix),
                                                       type(exc).__name__, exc))
        if S.diverged:
            raise RuntimeError("plan %s diverged" % (prefix,))
        d = zoo.differ(base, got)
        if d:
            ctx.fail("%s in %s (%s, %s, %s): serial and plan %s%s differ in %s" % (
                case["e"], case["box"], case["p"], case["q"], case["hist"], list(prefix),
                "" if mode == Sched.PLANS else " mode %d" % mode, d))
        return tr

    one((), Sched.FIXED)
    one((), Sched.RACE)
    one((), Sched.RACE, 1)
    seen = 0

    # iterative deviation: at most dev choices differ from the serial plan
    def walk(prefix, trace, left):
        nonlocal seen
        start = len(prefix)
        for k in range(start, len(trace)):
            for c in range(1, trace[k][0]):
                if left < case["dev"] and case["dev"] > 1 and c % stride and trace[k][1] == 1:
                    continue
                pre = tuple(x[2] for x in trace[:k]) + (c,)
                pre = prefix + (0,) * (k - start) + (c,)
                tr = one(pre)
                seen += 1
                if left > 1:
                    walk(pre, tr, left - 1)

    total = sum(x[0] - 1 for x in trace)
    pairs = sum((a[0] - 1) * (b[0] - 1) for a, b in itertools.combinations(trace, 2))
    # the second deviation takes a spread of the plans when all pairs are too many
    budget = 20000 if ctx.thorough else 700
    stride = 1 if pairs <= budget else -(-pairs // budget) | 1
    ctx.count("all_pairs_explored" if stride == 1 else "pairs_with_a_spread_of_second_plans")
    walk((), trace, case["dev"])
    ctx.traces += 1
    ctx.count("plans", seen)
