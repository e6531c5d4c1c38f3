"""Wrapping, images, fractional coordinates and distances of a box agree with its lattice."""
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "13 cells x 8 periodicities x every vector whose fractional coordinates are multiples of 1/4 "
             "from -2.5 to 2.5 (9261 per 3D cell), those one float below and above every multiple of "
             "1/2, far ones up to 20000 box lengths away, 400 generic vectors up to 4 box lengths away; all operations, scalar, list, float64 "
             "and out= forms",
    "thorough": "as quick with multiples of 1/8 from -4 to 4 and 20000 generic vectors",
}
HANG = 300


def setup(ctx):
    global freud
    import freud


def cases(tier):
    kinds = ["grid", "ulp", "gen", "far"]
    for b in ref.BOXES:
        for k in kinds:
            yield {"box": b, "v": k, "op": "wrap"}
            yield {"box": b, "v": k, "op": "image"}
            yield {"box": b, "v": k, "op": "frac"}
            yield {"box": b, "v": k, "op": "dist"}
        yield {"box": b, "v": "forms", "op": "forms"}
        for s in range(12 if tier == "thorough" else 4):
            yield {"box": b, "v": "com", "op": "com", "seed": s}


def vectors(cell, kind, th):
    if kind == "grid":
        m = 8 if th else 4
        k = np.arange(-4 * m if th else -10, (4 * m if th else 10) + 1) / m
        f = np.array(list(itertools.product(k, k, [0.5] if cell.is2d else k)))
        return ref.f32(cell.absolute(f), cell)
    if kind == "ulp":
        k = np.arange(-4, 7) / 2
        f = np.array(list(itertools.product(k, k, [0.5] if cell.is2d else k)))
        v = ref.f32(cell.absolute(f), cell)
        out = []
        for d in (-np.inf, np.inf):
            for ax in ((0,), (1,), (2,), (0, 1, 2)):
                w = v.copy()
                for a in ax:
                    w[:, a] = np.nextafter(w[:, a], np.float32(d))
                if cell.is2d:
                    w[:, 2] = 0
                out.append(w)
        return np.concatenate(out)
    if kind == "far":
        k = np.array([-20000.25, -9999.5, -1000, -33.75, -10.5, 0, 0.25, 11, 64.5, 999.75, 4096, 20000.5])
        f = np.array(list(itertools.product(k, k, [0.5] if cell.is2d else k)))
        return ref.f32(cell.absolute(f), cell)
    f = (np.random.RandomState(5).rand(20000 if th else 400, 3) - 0.5) * 8
    return ref.f32(cell.absolute(f), cell)


def say(v):
    return np.asarray(v, float).tolist()


def check(case, ctx):
    cell = ref.Cell(case["box"])
    return globals()["op_" + case["op"]](case, ctx, cell)


def eps_of(v, cell, exact):
    """Float tolerance in fractional coordinates."""
    return 0.0 if exact else 4e-7 * (2 + np.abs(np.asarray(v, float)).max() / cell.planes.min()) * 4


def op_wrap(case, ctx, cell):
    v = vectors(cell, case["v"], ctx.thorough)
    exact = ref.is_exact(cell, v)
    eps = eps_of(v, cell, exact)
    f0 = np.asarray(v, float) @ cell.hinv.T + 0.5
    for per in itertools.product((True, False), repeat=3):
        box = cell.freud(list(per))
        w = box.wrap(v)
        ctx.state(len(v))
        ctx.step(len(v))
        f1 = np.asarray(w, float) @ cell.hinv.T + 0.5
        for a in range(cell.dim):
            d = f1[:, a] - f0[:, a]
            if per[a]:
                bad = (np.abs(d - np.round(d)) > eps) | (f1[:, a] < -eps) | (
                    f1[:, a] >= 1 + eps if eps else f1[:, a] >= 1)
            else:
                bad = np.abs(d) > eps
            if bad.any():
                k = int(np.nonzero(bad)[0][0])
                ctx.fail("%s periodic %s: wrap(%s) = %s (fractional coordinate %d: %r -> %r)" % (
                    case["box"], per, say(v[k]), say(w[k]), a, f0[k, a], f1[k, a]))
        if cell.is2d:
            ctx.require(not w[:, 2].any(), "%s: wrap returns z in a 2D box" % case["box"])
        # wrapping again changes nothing
        w2 = box.wrap(w)
        d = (np.asarray(w2, float) - w) @ cell.hinv.T
        near = np.abs(f1 - np.round(f1)).min(1) <= eps
        bad = (np.abs(d).max(1) > eps) & (~near if eps else True)
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            ctx.fail("%s periodic %s: wrap(wrap(%s)) = %s, wrap = %s" % (
                case["box"], per, say(v[k]), say(w2[k]), say(w[k])))
    ctx.traces += 1


def op_image(case, ctx, cell):
    v = vectors(cell, case["v"], ctx.thorough)
    exact = ref.is_exact(cell, v)
    eps = eps_of(v, cell, exact)
    box = cell.freud()
    im = box.get_images(v)
    w = box.wrap(v)
    back = box.unwrap(w, im)
    ctx.state(len(v))
    ctx.step(4 * len(v))
    f = np.asarray(v, float) @ cell.hinv.T + 0.5
    if cell.is2d:
        f[:, 2] = 0.5
    want = np.floor(f).astype(int)
    near = np.abs(f - np.round(f)) <= eps
    bad = (im != want) & ~(near & (np.abs(im - want) <= 1)) if eps else im != want
    if bad.any():
        k = int(np.nonzero(bad.any(1))[0][0])
        ctx.fail("%s: get_images(%s) = %s, expected %s" % (
            case["box"], say(v[k]), im[k].tolist(), want[k].tolist()))
    bad = np.abs(np.asarray(back, float) - v).max(1) > max(eps, 1e-12) * cell.L.max() * 4
    if exact:
        bad = (back != v).any(1)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        ctx.fail("%s: unwrap(wrap(v), get_images(v)) = %s for v = %s" % (
            case["box"], say(back[k]), say(v[k])))
    c = box.contains(v)
    ins = ((f >= 0) & (f < 1)).all(1)
    unsure = (near.any(1)) if eps else np.zeros(len(v), bool)
    bad = (c != ins) & ~unsure
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        ctx.fail("%s: contains(%s) = %s" % (case["box"], say(v[k]), bool(c[k])))
    # unwrapping by any image adds exactly those lattice vectors
    for n in itertools.product((-2, 0, 3), (-1, 0, 1), (0, 2)):
        u = box.unwrap(w, np.array([n]))
        ref_u = np.asarray(w, float) + np.array(n, float) * [1, 1, 0 if cell.is2d else 1] @ cell.h.T
        bad = np.abs(u - ref_u).max(1) > 4e-6 * cell.L.max()
        ctx.state(len(v))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            ctx.fail("%s: unwrap(%s, %s) = %s" % (case["box"], say(w[k]), n, say(u[k])))
        again = box.wrap(u)
        d = (np.asarray(again, float) - w) @ cell.hinv.T
        fw = np.asarray(w, float) @ cell.hinv.T + 0.5
        eps2 = eps_of(u, cell, exact)
        nearw = (np.abs(fw - np.round(fw)) <= max(eps2, 1e-12))[:, :cell.dim].any(1)
        bad = (np.abs(d).max(1) > eps2) & ~(nearw if eps2 else False)
        if np.any(bad):
            k = int(np.nonzero(bad)[0][0])
            ctx.fail("%s: wrap(unwrap(%s, %s)) = %s" % (case["box"], say(w[k]), n, say(again[k])))
    ctx.traces += 1


def op_frac(case, ctx, cell):
    v = vectors(cell, case["v"], ctx.thorough)
    box = cell.freud()
    f = box.make_fractional(v)
    want = np.asarray(v, float) @ cell.hinv.T + 0.5
    if cell.is2d:
        want[:, 2] = 0
    ctx.state(len(v))
    ctx.step(2 * len(v))
    eps = eps_of(v, cell, False)
    bad = np.abs(f - want).max(1) > eps
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        ctx.fail("%s: make_fractional(%s) = %s, expected %s" % (
            case["box"], say(v[k]), say(f[k]), say(want[k])))
    f2 = want.astype(np.float32)
    a = box.make_absolute(f2)
    wa = cell.absolute(f2)
    bad = np.abs(a - wa).max(1) > eps * cell.L.max() * 2
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        ctx.fail("%s: make_absolute(%s) = %s, expected %s" % (
            case["box"], say(f2[k]), say(a[k]), say(wa[k])))
    ctx.traces += 1


def op_dist(case, ctx, cell):
    v = vectors(cell, case["v"], False)
    step = max(1, len(v) // 60)
    a, b = v[::step], np.concatenate([v[1::step], v[:1]])[:len(v[::step])]
    n = min(len(a), len(b))
    a, b = a[:n], b[:n]
    ortho = not any(cell.spec[3:])
    for per in itertools.product((True, False), repeat=3):
        box = cell.freud(list(per))
        D = box.compute_all_distances(a, b)
        ctx.require(D.shape == (n, n), "%s: compute_all_distances has shape %s" % (
            case["box"], D.shape))
        d = box.compute_distances(a, b)
        ctx.state(n * n)
        ctx.step(n * n + n)
        ctx.require(np.array_equal(d, np.diagonal(D)), "%s: compute_distances is not the diagonal "
                    "of compute_all_distances" % case["box"])
        # the distance is the length of the wrapped difference
        diff = b[None].astype(np.float32) - a[:, None]
        w = np.asarray(box.wrap(diff.reshape(-1, 3)), float)
        L = np.sqrt((w ** 2).sum(1)).reshape(n, n)
        bad = np.abs(L - D) > 1e-5 * (1 + L)
        if bad.any():
            i, j = [int(x[0]) for x in np.nonzero(bad)]
            ctx.fail("%s periodic %s: distance of %s and %s is %r, |wrap| is %r" % (
                case["box"], per, say(a[i]), say(b[j]), float(D[i, j]), float(L[i, j])))
        if ortho:
            f = diff.astype(float) / np.where(cell.L, cell.L, 1)
            f -= np.where(per, np.round(f), 0)
            m = np.sqrt(((f * cell.L) ** 2).sum(-1))
            bad = np.abs(m - D) > 3e-5 * cell.L.max() + 1e-6 * (m + np.abs(diff).max(-1))
            if bad.any():
                i, j = [int(x[0]) for x in np.nonzero(bad)]
                ctx.fail("%s periodic %s: distance of %s and %s is %r, the nearest image's %r" % (
                    case["box"], per, say(a[i]), say(b[j]), float(D[i, j]), float(m[i, j])))
        # rectangular shapes
        D2 = box.compute_all_distances(a[:3], b)
        D3 = box.compute_all_distances(a, b[:2])
        ctx.require(np.array_equal(D2, D[:3]) and np.array_equal(D3, D[:, :2]),
                    "%s: distances depend on the other points" % case["box"])
    ctx.traces += 1


def op_forms(case, ctx, cell):
    """Every accepted form of the arguments gives the same answer; inputs stay as they are."""
    box = cell.freud()
    v = vectors(cell, "gen", False)[:40]
    im = (np.arange(120).reshape(40, 3) % 5 - 2).astype(np.int32)
    ops = {"wrap": box.wrap, "make_fractional": box.make_fractional,
           "make_absolute": box.make_absolute, "get_images": box.get_images,
           "contains": box.contains, "center": box.center,
           "unwrap": lambda x, **k: box.unwrap(x, im[:len(np.atleast_2d(x))] if np.ndim(x) > 1
                                               else im[0], **k)}
    for name, f in ops.items():
        base = np.array(f(v))
        keep = v.copy()
        wide = np.zeros((40, 7), np.float32)
        wide[:, 2:5] = v
        variants = {"list": v.tolist(), "float64": v.astype(float), "fortran": np.asfortranarray(v),
                    "strided": wide[:, 2:5], "reversed twice": v[::-1].copy()[::-1]}
        for k, x in variants.items():
            ctx.state()
            ctx.step()
            ctx.require(np.array_equal(np.array(f(x)), base), "%s: %s differs for a %s input" % (
                case["box"], name, k))
        ctx.require(np.array_equal(v, keep), "%s: %s changed its input" % (case["box"], name))
        if name == "center":
            continue
        for k in range(0, 40, 7):
            one = np.array(f(v[k]))
            exp = np.array(f(v[k:k + 1]))[0]
            ctx.require(np.array_equal(np.squeeze(one), exp), "%s: %s of one vector" % (
                case["box"], name))
            if name != "unwrap":
                ctx.require(np.array_equal(exp, base[k]), "%s: %s of a vector depends on the others"
                            % (case["box"], name))
        if name in ("wrap", "make_fractional", "make_absolute", "unwrap"):
            out = np.full((40, 3), 77, np.float32)
            r = f(v, out=out)
            ctx.require(r is out and np.array_equal(out, base), "%s: %s with out=" % (
                case["box"], name))
            x = v.copy()
            f(x, out=x)
            ctx.require(np.array_equal(x, base), "%s: %s in place" % (case["box"], name))
            for bad in (np.zeros((39, 3), np.float32), np.zeros((40, 3)),
                        np.zeros((40, 3), np.float32).T.copy().T):
                k0 = bad.copy()
                try:
                    f(v, out=bad)
                except (ValueError, TypeError):
                    ctx.require(np.array_equal(bad, k0), "refused out= changed")
                else:
                    ctx.fail("%s: %s accepts out= of shape %s, %s" % (
                        case["box"], name, bad.shape, bad.dtype))
    # broadcasting of unwrap
    u = box.unwrap(v, [1, -1, 0])
    ctx.require(np.array_equal(u, box.unwrap(v, np.tile([[1, -1, 0]], (40, 1)))),
                "%s: unwrap with one image" % case["box"])
    u = box.unwrap(v[0], im)
    ctx.require(np.array_equal(u, box.unwrap(np.tile(v[:1], (40, 1)), im)),
                "%s: unwrap of one vector with many images" % case["box"])
    for bad in (np.zeros((4, 2)), np.zeros(4), np.zeros((2, 3, 3))):
        for name in ("wrap", "make_fractional", "make_absolute", "get_images", "contains"):
            try:
                ops[name](bad)
            except ValueError:
                pass
            else:
                ctx.fail("%s: %s accepts an array of shape %s" % (case["box"], name, bad.shape))
    ctx.traces += 1


def op_com(case, ctx, cell):
    box = cell.freud()
    rs = np.random.RandomState(case["seed"])
    for n in (1, 2, 3, 5, 9):
        c = rs.rand(3)
        f = c + 0.12 * (rs.rand(n, 3) - 0.5)
        m = (rs.rand(n) + 0.2).astype(np.float32)
        for mass in (None, m):
            for shift in ((0, 0, 0), (1, 0, 0), (-2, 3, 0 if cell.is2d else 1)):
                v = ref.f32(cell.absolute(f + np.array(shift) * (np.arange(n) % 2)[:, None]), cell)
                ctx.state()
                ctx.step(2)
                w = np.ones(n) if mass is None else m.astype(float)
                # the circular mean of the fractional coordinates
                z = (np.exp(2j * np.pi * (np.asarray(v, float) @ cell.hinv.T)) * w[:, None]).sum(0)
                e = np.angle(z) / (2 * np.pi)
                if cell.is2d:
                    e[2] = 0
                got = box.center_of_mass(v, mass)
                d = np.asarray(got, float) @ cell.hinv.T - e
                d -= np.round(d)
                ctx.require(np.abs(d).max() < 2e-5, lambda: "%s: center_of_mass(%s) = %s" % (
                    case["box"], say(v), say(got)))
                fr = np.asarray(got, float) @ cell.hinv.T + 0.5
                ctx.require(fr.min() > -1e-5 and fr.max() < 1 + 1e-5, "%s: center of mass %s is "
                            "outside" % (case["box"], say(got)))
                k0 = v.copy()
                cen = box.center(v, mass)
                ctx.require(np.array_equal(v, k0), "center changed its input")
                d = (np.asarray(cen, float) - (v - np.asarray(got, float))) @ cell.hinv.T
                d -= np.round(d)
                ctx.require(np.abs(d).max() < 2e-5, lambda: "%s: center(%s) = %s" % (
                    case["box"], say(v), say(cen)))
                fr = np.asarray(cen, float) @ cell.hinv.T + 0.5
                ctx.require(fr.min() > -1e-5 and fr.max() < 1 + 1e-5, "center leaves the box")
    ctx.traces += 1
