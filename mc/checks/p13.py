"""Results depend on the computations since the last reset, and on nothing else that was done."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "45 computations x up to 6 pairs of systems: every history of up to 4 operations (computing "
             "on either system anew or, where the computation accumulates, on top; reading every "
             "result; reading one result; a refused computation), every result after each history",
    "thorough": "as quick with histories of up to 5 operations",
}
HANG = 600
C = None


def setup(ctx):
    global C
    C = zoo.catalog()
    C.update(zoo.nl_entries())


PAIRS = {
    "3": [("generic", "gen:9", None, "generic", "clu:12:4", None),
          ("cube8", "gen:8:2", "gen:5:3", "cube8", "gen:11:6", "gen:7:5"),
          ("cube8", "gen:10:3", None, "cube4", "gen:7:8", None),
          ("generic", "gen:9:5", None, "tri2", "gen:8:3", None),
          ("generic", "clu:12:4", None, "generic", "gen:12:7", None),
          ("cube8", "clu:9:4", "clu:9:4", "cube8", "gen:9:6", "gen:9:5")],
    "2": [("sq", "gen:9", None, "sq", "clu:12:4", None),
          ("tri2", "gen:8:2", "gen:5:3", "tri2", "gen:11:6", "gen:7:5"),
          ("sq", "gen:10:3", None, "neg2", "gen:7:8", None),
          ("sq", "gen:9:5", None, "generic", "gen:8:3", None),
          ("sq", "clu:12:4", None, "sq", "gen:12:7", None),
          ("tri2", "clu:9:4", "clu:9:4", "tri2", "gen:9:6", "gen:9:5")],
}


class Box2(zoo.System):
    pass


def pair(e, d, k):
    b1, p1, q1, b2, p2, q2 = PAIRS[d][k]
    a = zoo.System(b1, p1, q1, seed=1)
    b = zoo.System(b2, p2, q2, seed=2, r=a.r)
    if e.name == "diffr":
        a, b = zoo.System("cube8", p1, seed=1), zoo.System("cube4" if k in (1, 2, 3) else "cube8", p2, seed=2)
    if not zoo.suits(e, a) or not zoo.suits(e, b):
        return None
    if k == 3 and e.name in ("gauss2", "gauss3", "voxel2", "voxel3"):
        return None
    b.r = min(a.r, 0.9 * b.half) if k != 1 else a.r
    if k > 3:
        # so near that some points have no neighbors in the second system
        q = b.p if b.q is None else b.q
        d = np.linalg.norm(b.cell.min_image((b.p[None] - q[:, None]).reshape(-1, 3)), axis=-1).reshape(len(q), -1)
        if b.q is None:
            np.fill_diagonal(d, np.inf)
        a.r = b.r = float(np.median(d.min(1)))
    return a, b


def cases(tier):
    depth = 5 if tier == "thorough" else 4
    for name in sorted(C):
        e = C[name]
        for d in e.dims:
            for k in range(6):
                pr = pair(e, d, k)
                if pr is None or (pr[0].q is not None and not e.query):
                    continue
                yield {"e": name, "d": d, "k": k, "depth": depth}
    for k in range(4):
        for mode in ("exact", "finite_size"):
            yield {"mode": mode, "k": k, "depth": depth + 1}


def additive(e):
    return e.acc


def law(e, parts):
    """What accumulating parts [(system, results)] must give, from the results of each alone."""
    out = {}
    R = [r for _, r in parts]
    S = [s for s, _ in parts]
    n = len(R)
    if "bin_counts" in R[0]:
        out["bin_counts"] = sum(r["bin_counts"].astype(np.int64) for r in R).astype(
            R[0]["bin_counts"].dtype)
    alike = all((s.n, s.m, s.cell.spec) == (S[0].n, S[0].m, S[0].cell.spec) for s in S)
    if e.name in ("debye", "diffr"):
        k = "S_k" if e.name == "debye" else "diffraction"
        out[k] = sum(r[k] for r in R) / n
    if e.name.startswith("corr"):
        c = [r["bin_counts"] for r in R]
        t = sum(x * r["correlation"] for x, r in zip(c, R))
        m = sum(c)
        out["correlation"] = np.where(m > 0, t / np.maximum(m, 1), 0)
    if e.name == "msd":
        out["particle_msd"] = np.concatenate([r["particle_msd"] for r in R], axis=1)
        out["msd"] = out["particle_msd"].mean(axis=1)
    if alike:
        for k in ("rdf", "n_r", "bond_order"):
            if k in R[0]:
                out[k] = sum(r[k].astype(float) for r in R) / n
        if "pmft" in R[0]:
            with np.errstate(divide="ignore"):
                out["pmft"] = -np.log(sum(np.exp(-r["pmft"].astype(float)) for r in R) / n)
    return out


def modes(case, ctx):
    """RDF: the normalization in force when a result is read is the one that counts."""
    import freud
    b1, p1, q1, b2, p2, q2 = PAIRS["3"][case["k"]]
    A = zoo.System(b1, p1, q1, seed=1)
    e = C["rdf"]
    other = {"exact": "finite_size", "finite_size": "exact"}
    want = {}
    for mode in other:
        for n in (1, 2, 3):
            o = freud.density.RDF(9, A.r, normalization_mode=mode)
            for _ in range(n):
                e.run(o, A, reset=False)
            want[mode, n] = e.read(o)
    for seq in itertools.product("cam r".replace(" ", ""), repeat=case["depth"]):
        o = freud.density.RDF(9, A.r, normalization_mode=case["mode"])
        mode, n = case["mode"], 0
        for op in seq:
            ctx.step()
            if op == "m":
                mode = other[mode]
                o.mode = mode
            elif op == "c":
                e.run(o, A)
                n = 1
            elif op == "a":
                if n == 3:
                    continue
                e.run(o, A, reset=False)
                n += 1
            elif n:
                e.read(o)
        ctx.state()
        ctx.require(o.mode == mode, lambda: "mode is %s after %s" % (o.mode, seq))
        if n:
            d = zoo.differ(want[mode, n], e.read(o), rtol=1e-5)
            ctx.require(not d, lambda: "rdf: after %s with the mode %s at last: %s" % (
                " ".join(seq), mode, d))
    try:
        o.mode = "neither"
    except ValueError:
        pass
    else:
        ctx.fail("an unknown mode is accepted")
    ctx.traces += 1


def check(case, ctx):
    if "mode" in case:
        return modes(case, ctx)
    e = C[case["e"]]
    A, B = pair(e, case["d"], case["k"])
    sysm = {"A": A, "B": B}
    maker = lambda: e.make(A)  # noqa
    ops = ["A", "B", "r", "x"] + (["+A", "+B"] if e.acc else []) + (
        ["r1"] if len(e.reads) > 1 else [])
    memo = {}

    def compute(o, op):
        if op[0] == "+":
            e.run(o, sysm[op[1]], reset=False)
        elif e.acc and op == "A":
            e.run(o, sysm[op], reset=True)
        else:
            e.run(o, sysm[op])

    def expected(since):
        if since not in memo:
            o = maker()
            for k, op in enumerate(since):
                compute(o, op)
            memo[since] = e.read(o)
            if len(since) > 1:
                names = [s[-1] for s in since]
                parts = []
                for x in names:
                    if (x,) not in memo:
                        o = maker()
                        compute(o, x)
                        memo[(x,)] = e.read(o)
                    parts.append((sysm[x], memo[(x,)]))
                want = law(e, parts)
                for k, v in want.items():
                    d = zoo.differ({k: v}, {k: memo[since][k]}, rtol=1e-3)
                    ctx.require(not d, lambda: "%s accumulated over %s is not the sum or mean over "
                                "the parts: %s" % (e.name, "".join(names), d))
                    ctx.count("laws")
        return memo[since]

    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if seq[0] in ("r", "r1", "x") or seq[-1] in ("r1",):
                continue
            o = maker()
            since = ()
            for op in seq:
                ctx.step()
                if op == "r":
                    e.read(o)
                elif op == "r1":
                    getattr(o, e.reads[-1])
                elif op == "x":
                    # refused before anything happens
                    try:
                        o.compute() if hasattr(o, "compute") else None
                    except (TypeError, ValueError):
                        pass
                else:
                    compute(o, op)
                    since = since + (op,) if op[0] == "+" else (op,)
            got = e.read(o)
            ctx.state()
            want = expected(since)
            d = zoo.differ(want, got, rtol=1e-5)
            ctx.require(not d, lambda: "%s: after %s the results are not those of %s: %s" % (
                e.name, " ".join(seq), " ".join(since), d))
            d = zoo.differ(got, e.read(o), exact=True)
            ctx.require(not d, lambda: "%s: reading twice after %s: %s" % (e.name, seq, d))
    ctx.traces += 1
