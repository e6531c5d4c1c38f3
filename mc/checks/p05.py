"""Nearest-neighbour queries return the k nearest qualifying points."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "11 cells x point sets (all 1-4 point subsets of a small lattice, lattices, boundary, "
             "coincident, clustered, generic) x k x r_max x r_min x r_guess x scale x exclude_ii x "
             "3 finders",
    "thorough": "as quick with more subsets, k and parameter combinations",
}
ORTHO = ["cube8", "slab", "odd", "sq", "rect", "odd2"]
TILTED = ["tri", "generic", "trineg", "tri2", "neg2"]


def setup(ctx):
    global freud
    import freud


PARAMS = [{}, {"scale": 1.5}, {"scale": 2.0}, {"scale": 3.0}, {"r_guess": 0.2},
          {"r_guess": 0.9, "scale": 1.3}, {"r_guess": 1.7}, {"r_guess": 4.0, "scale": 1.05},
          {"r_max": 0.99}, {"r_max": 0.6}, {"r_max": 0.99, "r_guess": 0.5, "scale": 1.9},
          {"r_max": 0.7, "r_min": 0.3}, {"r_min": 0.4}, {"r_min": 0.5, "r_guess": 0.3},
          {"r_max": 1.5, "r_guess": 0.4}, {"r_max": 1.9, "scale": 1.4},
          {"r_max": 0.95, "r_min": 0.2, "r_guess": 0.1, "scale": 1.2}]


def cases(tier):
    th = tier == "thorough"
    for b in ORTHO + TILTED:
        d2 = ref.Cell(b).is2d
        sets = [("lat:3", None), ("lat:4", "bdy"), ("bdy", "lat:3"), ("gen:2", "gen:3"),
                ("gen:7", None), ("gen:25", None), ("clu:24", "gen:5"), ("dup:9", None),
                ("gen:90", "gen:20:3"), ("line:15", None), ("gen:1", "lat:3"),
                ("clu:30:2", None)]
        if th:
            sets += [("gen:300", "gen:40:9"), ("clu:200:3", None), ("lat:6:0.5", None),
                     ("gen:33:4", None)]
        for s, par, k in itertools.product(sets, range(len(PARAMS)), (1, 4, 12)):
            if k == 12 and not th and par % 2:
                continue
            yield {"box": b, "p": s[0], "q": s[1], "par": par, "k": k}
        n, g = (9, 3) if d2 else (8, 2)
        for m in range(1, 5 if th else 4):
            for sub in itertools.combinations(range(n), m):
                for par in ((0, 2, 4, 7, 10, 14) if not th else range(len(PARAMS))):
                    yield {"box": b, "p": "sub:%d:%s" % (g, ",".join(map(str, sub))),
                           "q": "lat:3:0.5" if d2 else "lat:2:0.3", "par": par, "k": m}
    for b in ("generic", "odd", "neg2"):
        for n in list(range(1, 26)) + [40, 64, 65, 100]:
            yield {"box": b, "p": "gen:%d:%d" % (n, n), "q": None, "par": 0, "k": max(1, n - 1)}
            yield {"box": b, "p": "gen:%d:%d" % (n, n), "q": None, "par": 0, "k": n + 3}


def check(case, ctx):
    cell = ref.Cell(case["box"])
    box = cell.freud()
    p = ref.points(cell, case["p"])
    q = p if case["q"] is None else ref.points(cell, case["q"])
    half = float(cell.planes.min()) / 2
    par = {a: (x if a == "scale" else float(np.float32(x * half)))
           for a, x in PARAMS[case["par"]].items()}
    k = case["k"]
    D = ref.min_dist(cell, q, p)
    tilted = any(cell.spec[3:])
    for kind in ("aabb", "raw", "link", "linkw"):
        if kind == "aabb":
            nq = freud.locality.AABBQuery(box, p)
        elif kind == "raw":
            nq = freud.locality.NeighborQuery.from_system((box, p))
        else:
            nq = freud.locality.LinkCell(box, p, cell_width=half * (0.9 if kind == "link" else 0.4))
        if kind == "raw" and case["par"] % 3:
            continue
        for exclude in (False, True):
            qa = {"num_neighbors": k, "exclude_ii": exclude}
            qa.update(par)
            r_max, r_min = par.get("r_max", np.inf), par.get("r_min", 0.0)
            if kind.startswith("link"):
                qa.pop("r_guess", None)
                qa.pop("scale", None)
            if exclude:
                qa["mode"] = "nearest"

            def fail(msg):
                ctx.fail("%s in %s, %s: %s" % (kind, case["box"], qa, msg))

            Dx, rows = D, np.arange(len(q))
            if tilted and (kind.startswith("link") or True):
                # Beyond half the plane distance the shortest image in a tilted cell is not
                # searched for: only query points whose neighbours are nearer are compared.
                E = D.copy()
                if exclude:
                    for a in range(min(E.shape)):
                        E[a, a] = np.inf
                E[(E < r_min)] = np.inf
                E.sort(axis=1)
                kth = E[:, min(k, E.shape[1]) - 1] if E.shape[1] >= k else np.full(len(q), np.inf)
                if r_max >= half * 0.999:
                    rows = rows[kth < half * 0.99]
            nl = nq.query(q, qa).toNeighborList(sort_by_distance=True)
            i, j, v, d, w = ref.check_structure(nl, len(q), len(p), fail, by_distance=True)
            if np.any(w != 1):
                fail("weights are not all 1")
            if len(rows) < len(q):
                sel = np.isin(i, rows)
                remap = np.full(len(q), -1)
                remap[rows] = np.arange(len(rows))
                # self-exclusion is by index: keep it by giving the rows their own matrix
                Dx = D[rows].copy()
                if exclude:
                    for a, b in enumerate(rows):
                        if b < Dx.shape[1]:
                            Dx[a, b] = np.inf
                ref.check_nearest(cell, q[rows], p, (remap[i[sel]], j[sel], v[sel], d[sel]), k,
                                  r_max, r_min, False, fail, dist=Dx)
            else:
                ref.check_nearest(cell, q, p, (i, j, v, d), k, r_max, r_min, exclude, fail,
                                  dist=D)
            if len(i) < 400 and kind != "tuple":
                # bond by bond, without a list
                got = sorted(nq.query(q, qa))
                want = sorted(zip(i.tolist(), j.tolist(), d.tolist()))
                if got != want:
                    fail("bond by bond: %s, in the list: %s" % (
                        [x for x in got if x not in want][:3] or len(got), [x for x in want if x not in got][:3] or len(want)))
                ctx.step(len(got))
            ctx.step(len(q))
            ctx.count("queries")
            ctx.count("bonds", len(i))
    ctx.state()
    ctx.traces += 1
