"""Distance queries return exactly the pairs in range."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "13 cells x point sets (all pairs of the 4^d lattice, all 1-3 point subsets of a "
             "3x3 or 2x2x2 lattice, boundary points, coincident, clustered, generic up to 700) "
             "x r_max x r_min x exclude_ii x 6 finders; 7 periodicities of each cell",
    "thorough": "as quick with all subsets up to 5 points, more radii, up to 4000 points",
}
TWO_PLUS_D = ["sq", "odd2", "tri2", "neg2", "rect"]
THREE_D = ["cube8", "cube4", "slab", "odd", "tri", "trineg", "generic", "steep"]
FINDERS = ["aabb", "raw", "tuple", "cell", "link", "linkw"]


def setup(ctx):
    global freud
    import freud


def radii(cell, thorough):
    half = float(cell.planes.min()) / 2
    rs = [0.25 * half, 0.5 * half, 0.8 * half, 0.999 * half]
    if thorough:
        rs += [0.1 * half, 0.35 * half, 0.65 * half, 0.95 * half]
    return rs


def cases(tier):
    th = tier == "thorough"
    for b in TWO_PLUS_D + THREE_D:
        d2 = b in TWO_PLUS_D
        # every pair of lattice sites, boundary sites, and fixed irregular sets
        sets = [("lat:4", "lat:4"), ("lat:4", "bdy"), ("bdy", "lat:4"), ("bdy", "bdy"),
                ("gen:1", "lat:4"), ("gen:2", "gen:3"), ("dup:9", "dup:5"), ("gen:17", "gen:17"),
                ("clu:40", "gen:11"), ("line:30", "line:30"), ("gen:150", "gen:64:3"),
                ("gen:40:5", None), ("clu:60:2", None), ("dup:12", None), ("lat:5:0.5", None)]
        if b in ("generic", "odd2", "cube8"):
            sets += [("gen:700", "gen:90:9"), ("lat:9:0.25", None)]
        if th:
            sets += [("gen:2000", "gen:300:9"), ("clu:900:4", None), ("lat:6", "lat:6"),
                     ("gen:33:6", "clu:33:7"), ("gen:64:8", None), ("gen:65:8", None)]
        nr = 8 if th else 4
        for (p, q), r, rmin in itertools.product(sets, range(nr), (0, 1)):
            if len(p) > 6 and not th and (r % 2 or rmin):
                continue
            yield {"box": b, "p": p, "q": q, "r": r, "rmin": rmin}
        # all small subsets of a small lattice, queried from every site of a finer one
        n = 9 if d2 else 8
        g = 3 if d2 else 2
        for m in range(1, 6 if th else 4):
            for sub in itertools.combinations(range(n), m):
                yield {"box": b, "p": "sub:%d:%s" % (g, ",".join(map(str, sub))), "q": "lat:4",
                       "r": 3 if m % 2 else 2, "rmin": 0}
        for per in itertools.product((True, False), repeat=3):
            if not all(per):
                yield {"box": b, "periodic": list(per)}
    # radii on the spacings of a dyadic lattice: the bounds are exactly [r_min, r_max)
    for b in ("cube8", "cube4", "slab", "sq", "rect"):
        for rmax, rmin in ((1.0, 0.0), (1.5, 1.0), (1.25, 0.5), (1.5, 0.0), (1.75, 1.5),
                           (1.0, 0.5)):
            for g in ("lat:8", "lat:4"):
                yield {"box": b, "p": g, "q": None, "exact": [rmax, rmin]}
    # sizes around powers of two and three, for trees and cells of every shape
    for b in ("generic", "tri2") + (("cube8", "sq") if th else ()):
        for n in list(range(1, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]:
            yield {"box": b, "p": "gen:%d:%d" % (n, n), "q": "gen:7:2", "r": 3, "rmin": 0}


def make(kind, box, p, r, half):
    if kind == "aabb":
        return freud.locality.AABBQuery(box, p)
    if kind == "raw":
        return freud.locality.NeighborQuery.from_system((box, p))
    if kind == "cell":
        return freud.locality.CellQuery(box, p)
    if kind == "link":
        return freud.locality.LinkCell(box, p, cell_width=r)
    if kind == "linkw":
        # cells both much smaller and larger than the radius
        return freud.locality.LinkCell(box, p, cell_width=0.37 * r if 3 * r > half else 1.7 * r)
    return None


def check(case, ctx):
    cell = ref.Cell(case["box"])
    if "periodic" in case:
        return closed(case, ctx, cell)
    box = cell.freud()
    p = ref.points(cell, case["p"])
    q = p if case["q"] is None else ref.points(cell, case["q"])
    half = float(cell.planes.min()) / 2
    if "exact" in case:
        r_max, r_min = case["exact"]
        exact = ref.is_exact(cell, p, q)
    else:
        r_max = float(np.float32(radii(cell, True if case["r"] > 3 else False)[case["r"]]
                                 if case["r"] < 4 else radii(cell, True)[case["r"]]))
        r_min = float(np.float32(0.4 * r_max)) if case["rmin"] else 0.0
        exact = False
    if r_max >= half:
        return
    reference = ref.ball_pairs(cell, q, p, r_max + 2e-5 * float(max(cell.L)))
    p0, q0 = p.copy(), q.copy()
    for kind in FINDERS:
        # a cell list is exact where its own rounding is: only the tree is on dyadic grids
        ex = exact and kind in ("aabb", "raw", "tuple", "cell", "link", "linkw")
        for exclude in (False, True):
            qa = {"r_max": r_max, "exclude_ii": exclude}
            if r_min:
                qa["r_min"] = r_min
            if exclude:
                qa["mode"] = "ball"

            def fail(msg):
                ctx.fail("%s in %s, %s: %s" % (kind, case["box"], qa, msg))

            if kind == "tuple":
                # the list a compute builds for itself from (box, points)
                if exclude is False and q is p:
                    continue
                nl = freud.locality.NeighborQuery.from_system((box, p)).query(
                    q, qa).toNeighborList(sort_by_distance=True)
                bd = True
            else:
                nqo = make(kind, box, p, r_max, half)
                nl = nqo.query(q, qa).toNeighborList(sort_by_distance=exclude)
                bd = exclude
            i, j, v, d, w = ref.check_structure(nl, len(q), len(p), fail, by_distance=bd)
            if np.any(w != 1):
                fail("weights are not all 1")
            ref.check_ball(cell, q, p, (i, j, v), r_max, r_min, exclude, fail, exact=ex,
                           ref=reference)
            if len(i) < 400 and kind != "tuple":
                # bond by bond, without a list
                got = sorted(nqo.query(q, qa))
                want = sorted(zip(i.tolist(), j.tolist(), d.tolist()))
                if got != want:
                    fail("bond by bond: %s, in the list: %s" % (
                        [x for x in got if x not in want][:3] or len(got), [x for x in want if x not in got][:3] or len(want)))
                ctx.step(len(got))
            ctx.step(len(q))
            ctx.count("bonds", len(i))
            ctx.count("queries")
    if not (np.array_equal(p, p0) and np.array_equal(q, q0)):
        ctx.fail("the query modified its input")
    ctx.state()
    ctx.traces += 1


def closed(case, ctx, cell):
    """Where images do not exist along every direction, a finder refuses or counts only those there are."""
    per = case["periodic"]
    box = cell.freud(per)
    half = float(cell.planes.min()) / 2
    for pts, qts in (("gen:9", None), ("lat:4", None), ("gen:1", "gen:5:3"), ("gen:40:2", "lat:3"), ("dup:6", "gen:4")):
        p = ref.points(cell, pts)
        q = p if qts is None else ref.points(cell, qts)
        for r in (0.3 * half, 0.9 * half) + (() if any(per) else (2.5 * half,)):
            r = float(np.float32(r))
            ri, rj, rv, rd = ref.ball_pairs(cell, q, p, r + 2e-5 * float(max(cell.L)))
            im = np.round((rv - (p[rj].astype(float) - q[ri])) @ cell.hinv.T)
            keep = ~(im[:, ~np.array(per)] != 0).any(1)
            if cell.is2d:
                keep = ~(im[:, :2][:, ~np.array(per[:2])] != 0).any(1)
            reference = ri[keep], rj[keep], rv[keep], rd[keep]
            for kind, exclude, r_min in itertools.product(("aabb", "raw", "cell", "link"), (False, True), (0, float(np.float32(0.2 * r)))):
                qa = {"r_max": r, "exclude_ii": exclude, "r_min": r_min}

                def fail(msg):
                    ctx.fail("%s in %s periodic %s, %s: %s" % (kind, case["box"], per, qa, msg))
                ctx.step()
                try:
                    nl = make(kind, box, p, r, half).query(q, qa).toNeighborList()
                except (ValueError, RuntimeError) if r > half else ValueError:
                    ctx.count("refused")
                    continue
                i, j, v, d, w = ref.check_structure(nl, len(q), len(p), fail)
                ref.check_ball(cell, q, p, (i, j, v), r, r_min, exclude, fail, ref=reference)
                ctx.count("answered")
    ctx.state()
    ctx.traces += 1
