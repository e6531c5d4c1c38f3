"""Results can be read from the first successful compute on, and not before."""
import itertools

import numpy as np

from mc import zoo

BOUNDS = {
    "quick": "40 computations: every history of up to 3 operations (a computation, a refused one of each of up "
             "to 12 kinds, an accumulating one, reading, plotting); every public property after each operation",
    "thorough": "as quick with histories of up to 4 operations",
}
HANG = 300


def setup(ctx):
    global C, freud
    import freud
    C = zoo.catalog()


def cases(tier):
    depth = 4 if tier == "thorough" else 3
    for name in sorted(C):
        for d in C[name].dims:
            yield {"e": name, "d": d, "depth": depth}


BAD = ("system", "points", "number", "nbr", "nbrkey", "qp", "angles", "quats", "values", "keys", "labels", "masses",
       "box")


def refuse(e, o, s, kind):
    """Call compute with one thing wrong."""
    if kind == "number":
        return o.compute(5)
    if kind == "system":
        s.system = lambda *a: "nothing"
    elif kind == "points":
        pts = s.p[:, :2]
        s.system = lambda *a: (s.box, pts)
        s.p = pts
    elif kind == "box":
        s.system = lambda *a: ("no box", s.p)
    elif kind == "nbr":
        s.nbr = lambda *a: "none"
    elif kind == "nbrkey":
        s.nbr = lambda *a: {"r_max": 1.0, "bogus": 3}
    elif kind == "qp":
        s.qp = lambda: {"query_points": s.p[:, :2]}
    else:
        setattr(s, kind, getattr(s, kind)[:-1])
        if hasattr(s, "q" + kind):
            setattr(s, "q" + kind, getattr(s, "q" + kind)[:-1])
    if kind in ("nbr", "nbrkey") and not e.nbr or kind == "qp" and not e.query:
        raise TypeError
    return e.run(o, s)


def check(case, ctx):
    e = C[case["e"]]
    box = "cube8" if case["d"] == "3" else "sq"
    mk = lambda: zoo.System(box, "gen:9", seed=1)  # noqa
    s0 = mk()
    bad = []
    for k in BAD:
        try:
            refuse(e, e.make(s0), mk(), k)
        except Exception:
            bad.append(k)
    ctx.require("number" in bad, lambda: "%s: compute(5) is accepted" % e.name)
    probe = e.make(s0)
    props = [k for k in dir(type(probe)) if k[0] != "_" and isinstance(
        getattr(type(probe), k, None), property)]

    def state(o):
        """property: readable?"""
        out = {}
        for k in props:
            try:
                getattr(o, k)
                out[k] = True
            except AttributeError:
                out[k] = False
            except NotImplementedError:
                out[k] = None
        return out
    before = state(probe)
    results = set(e.reads)
    for k in results:
        ctx.require(before[k] is False, lambda: "%s.%s can be read before computing" % (
            type(probe).__name__, k))
    gated = [k for k in props if before[k] is False]
    ops = ["c", "read", "plot"] + bad + (["+"] if e.acc else [])
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if depth > 2 and sum(x in bad for x in seq) > 2:
                continue
            o = e.make(s0)
            done = False
            for n, op in enumerate(seq):
                ctx.step()
                if op == "c":
                    e.run(o, s0)
                    done = True
                elif op == "+":
                    e.run(o, s0, reset=False)
                    done = True
                elif op == "read":
                    for k in sorted(results):
                        try:
                            getattr(o, k)
                            ok = True
                        except AttributeError:
                            ok = False
                        ctx.require(ok == done, lambda: "%s.%s %s after %s" % (
                            type(o).__name__, k, "can be read" if ok else "cannot be read",
                            " ".join(seq[:n]) or "nothing"))
                elif op == "plot":
                    if not hasattr(type(o), "plot"):
                        continue
                    try:
                        o.plot
                        ok = True
                    except AttributeError:
                        ok = False
                    ctx.require(ok == done, lambda: "%s.plot %s after %s" % (
                        type(o).__name__, "is there" if ok else "is missing", " ".join(seq[:n])))
                    if not done and hasattr(o, "_repr_png_"):
                        ctx.require(o._repr_png_() is None, "an object not computed shows a picture")
                else:
                    try:
                        refuse(e, o, mk(), op)
                    except Exception:
                        continue
                    ctx.fail("%s: what was refused (%s) is accepted after %s" % (
                        e.name, op, " ".join(seq[:n])))
            now = state(o)
            ctx.state()
            for k in props:
                want = (done if k in gated else before[k])
                ctx.require(now[k] is want, lambda: "%s.%s %s after %s" % (
                    type(o).__name__, k, "can be read" if now[k] else "cannot be read", " ".join(seq)))
            str(o)
            repr(o)
    ctx.traces += 1
