"""SANN and RAD keep exactly the bonds their definitions keep."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "9 cells x point sets (all 2-4 point subsets of small lattices, lattices, coincident, "
             "clustered, generic up to 220) x unfiltered list from query arguments, all pairs or a "
             "weighted list x same or separate query points x SANN, RAD-open and RAD-closed x radii "
             "x incomplete shells allowed or not",
    "thorough": "as quick with larger subsets and sets",
}
CELLS = ["cube8", "slab", "odd", "tri", "generic", "sq", "odd2", "tri2", "neg2"]


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for b in CELLS:
        d2 = ref.Cell(b).is2d
        sets = [("gen:2", None), ("gen:3", None), ("gen:12", None), ("gen:12", "gen:5:3"),
                ("gen:5", "gen:12:3"), ("gen:60", None), ("gen:60", "gen:9:4"), ("clu:30", None),
                ("lat:3", None), ("lat:4", "gen:6"), ("dup:8", "gen:6:5"), ("gen:1", "gen:6"),
                ("line:9", None), ("lat:3:0.5", "lat:2"), ("gen:220:2", None),
                ("gen:120:2", "gen:90:7")]
        if th:
            sets += [("gen:600:2", None), ("gen:33:3", "gen:250:8"), ("clu:200:3", None)]
        for (p, q), nb in itertools.product(sets, ("ball", "small", "near", "all", "list", "sparse", "images")):
            if nb == "all" and int(p.split(":")[1]) > 100:
                continue
            yield {"box": b, "p": p, "q": q, "nb": nb}
        n, g = (9, 3) if d2 else (8, 2)
        for m in range(2, 6 if th else 4):
            for sub in itertools.combinations(range(n), m):
                yield {"box": b, "p": "sub:%d:%s" % (g, ",".join(map(str, sub))),
                       "q": "gen:4:6" if len(sub) % 2 else None, "nb": "all"}


def unfiltered(case, cell, box, p, q):
    """(neighbors argument, the list it stands for)."""
    half = float(cell.planes.min()) / 2
    same = case["q"] is None
    nb = case["nb"]
    aq = freud.locality.AABBQuery(box, p)
    if nb == "all":
        return None, freud.locality.NeighborList.all_pairs((box, p), None if same else q, same)
    if nb in ("ball", "small"):
        qa = {"r_max": half * (0.98 if nb == "ball" else 0.35), "exclude_ii": same}
    elif nb == "near":
        qa = {"num_neighbors": min(9, max(1, len(p) - 1)), "r_max": half * 0.98,
              "exclude_ii": same}
    else:
        qa = {"r_max": half * 0.9, "exclude_ii": same}
    nl = aq.query(q, qa).toNeighborList()
    if nb in ("ball", "small", "near"):
        return qa, nl
    i, j, v, d, w = ref.nlist_arrays(nl)
    # a list with its own weights, unsorted points, some query points without bonds
    k = np.arange(len(i))
    keep = (k % 4 != 1) if nb == "list" else (i % 3 == 1)
    if nb == "images":
        # the bonds go to farther images of the points
        keep = k % 5 != 3
        f = np.stack([(k % 3 == 0) * 1.0, (k % 4 == 1) * -1.0, (k % 7 == 2) * (0.0 if cell.is2d else 1.0)], -1)
        v = v + f @ cell.h.T
    o = np.lexsort((-j[keep], i[keep]))
    i, j, v = i[keep][o], j[keep][o], v[keep][o]
    return (freud.locality.NeighborList.from_arrays(
        len(q), len(p), i, j, v, (0.25 + (np.arange(len(i)) * 7 % 11)).astype(np.float32)),) * 2


def sann(d):
    """Number of the sorted distances d kept, whether the shell is full, and whether it is near."""
    near = False
    s, m = 0.0, 0
    while m < len(d) and m < 3:
        s += d[m]
        m += 1
    while m < len(d):
        a, b = s / (m - 2.0), d[m]
        near |= abs(a - b) <= 2e-5 * (abs(a) + abs(b))
        if not a > b:
            break
        s += d[m]
        m += 1
    return m, m < len(d), near


def rad(v, d, r, closed):
    keep = []
    near = False
    blocked = False
    for j in range(len(d)):
        blocked = False
        for k in range(j):
            lhs = r[j] ** 2 * d[k] ** 2 * d[j] * d[k]
            rhs = r[k] ** 2 * (v[j] @ v[k]) * d[j] ** 2
            if abs(lhs - rhs) <= 2e-5 * (abs(lhs) + abs(rhs)) and (lhs or rhs):
                near = True
            if lhs < rhs:
                blocked = True
                break
        if not blocked:
            keep.append(j)
        elif closed:
            break
    return keep, (not closed) or (blocked and len(d) > 0), near


def check(case, ctx):
    cell = ref.Cell(case["box"])
    box = cell.freud()
    p = ref.points(cell, case["p"])
    q = p if case["q"] is None else ref.points(cell, case["q"])
    neighbors, full = unfiltered(case, cell, box, p, q)
    i, j, v, d, w = ref.nlist_arrays(full)
    o = np.lexsort((j, np.float32(d), i))
    si, sj, sv, sd, sw = i[o], j[o], v[o], d[o], w[o]
    start = np.searchsorted(si, np.arange(len(q) + 1))
    rad_sets = [None, (1 + (np.arange(len(p)) % 3) * 0.25).astype(np.float32)]
    confs = [("sann", None, False)] + [("rad", r, c) for r in range(2) for c in (False, True)]
    for kind, r, closed in confs:
        want, full_shell, near = [], [], []
        radii = np.ones(len(p)) if not r else rad_sets[1].astype(float)
        for a in range(len(q)):
            s = slice(start[a], start[a + 1])
            if kind == "sann":
                m, full_a, near_a = sann(sd[s])
                keep = list(range(m))
            else:
                keep, full_a, near_a = rad(sv[s], sd[s], radii[sj[s]], closed)
            want.append([start[a] + x for x in keep])
            full_shell.append(full_a)
            near.append(near_a)
        incomplete = [a for a in range(len(q)) if not full_shell[a]]
        sure = not any(near)
        for allow in (True, False):
            if kind == "sann":
                f = freud.locality.FilterSANN(allow)
                kw = {}
            else:
                f = freud.locality.FilterRAD(allow, closed)
                kw = {"points_radii": rad_sets[r]} if r else {}

            def fail(msg):
                ctx.fail("%s%s in %s (%s, %s, %s): %s" % (
                    kind, "" if closed is None else " closed=%s radii=%s" % (closed, r),
                    case["box"], case["p"], case["q"], case["nb"], msg))

            import contextlib
            import os
            with quiet():
                try:
                    f.compute((box, p), neighbors, None if case["q"] is None else q, **kw)
                    raised = False
                except RuntimeError as e:
                    raised = True
                    text = str(e)
            ctx.step()
            if raised:
                if allow:
                    fail("raised although incomplete shells are allowed: %s" % text)
                if sure and not incomplete:
                    fail("raised although every shell is complete")
                if sure and not ("indices " + ", ".join(map(str, incomplete)) + " do not") in text:
                    fail("names the wrong query points: %s, expected %s" % (text, incomplete))
                continue
            if not allow and sure and incomplete:
                fail("query points %s have incomplete shells: no error" % incomplete[:5])
            u = ref.nlist_arrays(f.unfiltered_nlist)
            if not all(np.array_equal(x, y) for x, y in zip(u, (i, j, v, d, w))):
                fail("unfiltered_nlist is not the list that was filtered")
            nl = f.filtered_nlist
            gi, gj, gv, gd, gw = ref.check_structure(nl, len(q), len(p), fail, by_distance=True)
            gs = np.searchsorted(gi, np.arange(len(q) + 1))
            for a in range(len(q)):
                if near[a]:
                    continue
                s = slice(gs[a], gs[a + 1])
                k = want[a]
                if not (np.array_equal(gj[s], sj[k]) and np.array_equal(gd[s], sd[k])
                        and np.array_equal(gv[s], sv[k]) and np.array_equal(gw[s], sw[k])):
                    fail("query point %d: kept %s, expected %s (weights %s, %s; vectors %s, %s)" % (
                        a, gj[s].tolist(), sj[k].tolist(), gw[s].tolist()[:4], sw[k].tolist()[:4],
                        gv[s].tolist()[:2], sv[k].tolist()[:2]))
                ctx.count("shells")
            now = ref.nlist_arrays(full)
            if not all(np.array_equal(x, y) for x, y in zip(now, (i, j, v, d, w))):
                fail("filtering changed its input list")
            ctx.state()
    ctx.traces += 1


class quiet:
    """Drops what the library writes to standard output."""

    def __enter__(self):
        import os
        self.o = os.dup(1)
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.close(n)

    def __exit__(self, *a):
        import os
        os.dup2(self.o, 1)
        os.close(self.o)
