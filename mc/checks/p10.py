"""A periodic buffer holds exactly the images its specification names, once each."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "10 cells x 9 point sets x every buffer vector over {0, small, 0.3 L, 0.5 L, L, 1.2 L}^3 "
             "(diagonal and all mixed triples of 3 values) or image counts {0, 1, 2, 3}^3 (and "
             "fractional counts) x with and without the input points; histories of two computations",
    "thorough": "as quick with all triples of 6 distances, image counts up to 4 and larger sets",
}


def setup(ctx):
    global freud
    import freud


def cases(tier):
    th = tier == "thorough"
    for b in ("cube8", "slab", "odd", "tri", "generic", "steep", "sq", "rect", "tri2", "neg2"):
        d2 = ref.Cell(b).is2d
        for p in ("gen:1", "gen:7", "clu:9", "bdy", "lat:2", "lat:3:0.5", "lat:4", "dup:6",
                  "gen:20:3") + (("gen:90:4",) if th else ()):
            v = [0, 0.013, 0.3, 0.5, 1.0, 1.2]
            full = set(itertools.product(v if th else (0, 0.3, 1.2), repeat=3))
            full |= {(x, x, x) for x in v} | {(0.5, 1.0, 0.25), (1.0, 0.5, 0), (0, 1.0, 0.5)}
            if p in ("gen:7", "lat:2", "bdy"):
                for t in sorted(full):
                    yield {"box": b, "p": p, "dist": t}
            else:
                for t in [(x, x, x) for x in v] + [(0.3, 1.2, 0.013), (1.2, 0, 0.5)]:
                    yield {"box": b, "p": p, "dist": t}
            m = (0, 1, 2, 3, 4) if th else (0, 1, 2, 3)
            cnt = itertools.product(m, m, m if not d2 else (0, 2)) \
                if p in ("gen:7", "lat:2") else [(x, x, x) for x in m]
            for t in cnt:
                yield {"box": b, "p": p, "images": t}
            for t in ((0.4, 1.6, 0), (2.5, 0, 0.1)):
                yield {"box": b, "p": p, "images": t}


def check(case, ctx):
    cell = ref.Cell(case["box"])
    p = ref.points(cell, case["p"])
    box = cell.freud()
    n = len(p)
    images = "images" in case
    arg = case["images"] if images else [float(np.float32(t * L if L else t)) for t, L in zip(
        case["dist"], cell.L)]
    forms = [arg]
    if arg[0] == arg[1] == arg[2]:
        forms.append(arg[0])
    pb = freud.locality.PeriodicBuffer()
    exact = ref.is_exact(cell, p)
    for k, (form, inc) in enumerate(itertools.product(forms, (True, False))):
        src = (box, p) if k % 2 else freud.locality.AABBQuery(box, p)
        if k == 0:      # not a fresh object
            pb.compute((box, p[:1]), 0.1)
        keep = p.copy()
        pb.compute(src, form, images=images, include_input_points=inc)
        ctx.require(np.array_equal(keep, p), "the input points changed")
        pts, ids, bb = np.array(pb.buffer_points, float), np.array(pb.buffer_ids), pb.buffer_box
        ctx.state()
        ctx.step(max(1, len(pts)))
        what = "%s %s buffer %s%s" % (case["box"], case["p"], arg, " images" if images else "")
        ctx.require(pts.shape == (len(ids), 3) or (len(ids) == 0 and pts.size == 0),
                    "%s: %s points and %s ids" % (what, pts.shape, ids.shape))
        pts = pts.reshape(-1, 3)
        if len(ids):
            ctx.require(ids.max() < n, "%s: id %d of %d points" % (what, ids.max(), n))
        # the box
        if images:
            c = np.ceil(np.array(arg, float)).astype(int)
            L = cell.L * (1 + c)
        else:
            L = cell.L + 2 * np.array(arg, float)
        if cell.is2d:
            L[2] = 0
        got = np.array([bb.Lx, bb.Ly, bb.Lz])
        ctx.require(np.allclose(got, L, rtol=1e-5, atol=1e-6), "%s: buffer box %s, expected %s"
                    % (what, got, L))
        ctx.require(np.allclose([bb.xy, bb.xz, bb.yz], cell.spec[3:], atol=1e-6)
                    and bb.is2D == cell.is2d, "%s: tilt or dimension of the buffer box" % what)
        # each point is a lattice translation of its original
        big = ref.Cell((L[0], L[1], L[2], *cell.spec[3:]))
        df = (pts - p[ids].astype(float)) @ cell.hinv.T
        t = np.round(df)
        ctx.require(np.abs(df - t).max(initial=0) < 1e-4, "%s: a buffer point is no image of its "
                    "original" % what)
        t = t.astype(int)
        if cell.is2d:
            ctx.require(not t[:, 2].any(), "%s: image along z in 2D" % what)
        have = {}
        for a, b in zip(ids.tolist(), t.tolist()):
            have[(a, *b)] = have.get((a, *b), 0) + 1
        if any(v > 1 for v in have.values()):
            x = [q for q, v in have.items() if v > 1][0]
            ctx.fail("%s: image %s of point %d appears twice" % (what, x[1:], x[0]))
        fr = big.frac(pts)
        if images:
            # one copy of each point in each of the prod(1 + images) cells of the tiled box
            m = 1 + c
            if cell.is2d:
                m[2] = 1
            tot = int(np.prod(m)) - (0 if inc else 1)
            cnt = np.bincount(ids, minlength=n)
            ctx.require((cnt == tot).all(), "%s: %s images per point, expected %d" % (
                what, sorted(set(cnt.tolist())), tot))
            ctx.require(fr.min(initial=0) > -1e-5 and fr.max(initial=0) < 1 + 1e-5,
                        "%s: a point outside the buffer box" % what)
            # distinct cells: images of one point are pairwise different modulo the buffer box
            res = {(a, *[x % y for x, y in zip(b, m)]) for a, b in zip(ids.tolist(), t.tolist())}
            ctx.require(len(res) == len(ids), "%s: two images coincide in the buffer box" % what)
            if not inc:
                lost = {(a, 0, 0, 0) for a in range(n)} & res
                ctx.require(not lost, "%s: an input point is in the buffer" % what)
        else:
            k = [int(np.ceil(arg[a] / cell.L[a])) + 1 if cell.L[a] else 0 for a in range(3)]
            im = np.array(list(itertools.product(*[range(-x, x + 1) for x in k])))
            eps = 0.0 if exact else 2e-6
            for a in range(n):
                f = big.frac(p[a].astype(float) + im @ cell.h.T)
                f = f[:, :cell.dim]
                must = ((f >= eps) & (f < 1 - eps)).all(1)
                may = ((f >= -eps) & (f < 1 + eps)).all(1)
                org = ~im.any(1)
                if not inc:
                    must, may = must & ~org, may & ~org
                for x in im[must]:
                    if (a, *x) not in have:
                        ctx.fail("%s: image %s of point %d is in the buffer box but missing%s" % (
                            what, x.tolist(), a, "" if inc else " (without the inputs)"))
                ok = {(a, *x) for x in im[may].tolist()}
                bad = [x for x in have if x[0] == a and x not in ok]
                if bad:
                    ctx.fail("%s: image %s of point %d should not be there%s" % (
                        what, bad[0][1:], a, "" if inc else " (without the inputs)"))
        ctx.traces += 1
