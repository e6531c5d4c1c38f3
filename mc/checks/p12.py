"""A Box is what its history of constructions and assignments says, explored as a state machine."""
import copy
import itertools

import numpy as np

from mc import ref

BOUNDS = {
    "quick": "6 initial boxes, every sequence of up to 3 of 30 operations (assignments of lengths, tilts, "
             "dimensions and periodicity, scaling, conversion through every box-like form, refused "
             "assignments), all observations after each; every box-like form of 100 parameter sets",
    "thorough": "as quick with sequences of up to 4 operations",
}
HANG = 600
F = np.float32
INIT = {"cube": (8, 8, 8, 0, 0, 0, False), "tri": (6, 5, 7, 0.5, -0.25, 0.75, False),
        "sq": (8, 8, 0, 0, 0, 0, True), "par": (6, 5, 0, 0.5, 0, 0, True),
        "slab": (4, 8, 2, 0, 0, 0, False), "np": (8, 4, 8, 0.25, 0, 0, False)}


class Obj:
    pass


class M:
    """The model: lengths, tilts, dimension, periodicity."""

    def __init__(self, Lx, Ly, Lz, xy, xz, yz, d2, per=(True, True, True)):
        self.L = [float(F(Lx)), float(F(Ly)), 0.0 if d2 else float(F(Lz))]
        self.t = [float(F(xy)), float(F(xz)), float(F(yz))]
        self.d2 = d2
        self.per = list(per)

    def key(self):
        return (*self.L, *self.t, self.d2, *self.per)

    def clone(self):
        return copy.deepcopy(self)


def setup(ctx):
    global freud, Box, OPS, BAD
    import freud
    Box = freud.box.Box
    OPS = operations()


def setL(m, i, x):
    if i == 2 and m.d2:
        return
    m.L[i] = float(F(x))


def operations():
    """name -> (function on the box giving a new box or None, function on the model)."""
    O = {}

    def op(name, f, g):
        O[name] = (f, g)

    def attr(a, v, g):
        def f(b):
            setattr(b, a, v)
        op("%s=%s" % (a, v), f, g)
    attr("Lx", 5.5, lambda m: setL(m, 0, 5.5))
    attr("Ly", 3.25, lambda m: setL(m, 1, 3.25))
    attr("Lz", 9.5, lambda m: setL(m, 2, 9.5))
    attr("L", (3.0, 4.0, 6.0), lambda m: [setL(m, k, x) for k, x in enumerate((3, 4, 6))])
    attr("L", 5.0, lambda m: [setL(m, k, 5) for k in range(3)])
    for k, a in enumerate(("xy", "xz", "yz")):
        attr(a, 0.375 - 0.5 * (k == 1), lambda m, k=k: m.t.__setitem__(k, 0.375 - 0.5 * (k == 1)))

    def dim2(m):
        m.d2, m.L[2] = True, 0.0

    def dim3(m):
        m.d2 = False
    attr("dimensions", 2, dim2)
    attr("dimensions", 3, dim3)
    for k, a in enumerate(("periodic_x", "periodic_y", "periodic_z")):
        attr(a, False, lambda m, k=k: m.per.__setitem__(k, False))
    attr("periodic", True, lambda m: m.per.__setitem__(slice(None), [True] * 3))
    attr("periodic", (False, True, False), lambda m: m.per.__setitem__(
        slice(None), [False, True, False]))

    def own(b):
        b.periodic = b.periodic
    op("periodic=own", own, lambda m: None)

    # new boxes
    def scale(m, s):
        m.L = [float(F(x * s)) for x in m.L]
    op("*2", lambda b: b * 2, lambda m: scale(m, 2))
    op("0.5*", lambda b: 0.5 * b, lambda m: scale(m, 0.5))
    op("from_box", lambda b: Box.from_box(b), lambda m: None)

    def fresh(m):
        m.per = [True] * 3
    op("dict", lambda b: Box.from_box(b.to_dict()), fresh)
    op("kwargs", lambda b: Box(b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, is2D=b.is2D), fresh)
    op("list6", lambda b: Box.from_box(list(b.to_box_params()), dimensions=b.dimensions), fresh)
    op("eval", lambda b: eval(repr(b), {"freud": freud}), fresh)

    def ob(b):
        o = Obj()
        for a in ("Lx", "Ly", "Lz", "xy", "xz", "yz", "dimensions"):
            setattr(o, a, getattr(b, a))
        return Box.from_box(o)
    op("object", ob, fresh)
    op("convert", lambda b: freud.util._convert_box(b), lambda m: None)

    def matrix(m):
        fresh(m)
        if m.d2:
            m.t[1] = m.t[2] = 0.0
    op("matrix", lambda b: Box.from_box(b.to_matrix(), dimensions=b.dimensions), matrix)
    op("lengths+angles", lambda b: Box.from_box_lengths_and_angles(
        *b.to_box_lengths_and_angles(), dimensions=b.dimensions), matrix)

    # refused: nothing changes
    def refused(name, f, exc):
        def run(b):
            try:
                f(b)
            except exc:
                return None
            raise Refused(name)
        op("!" + name, run, lambda m: None)

    def short(b):
        b.L = (1, 2)
    refused("L of 2", short, ValueError)
    refused("*0", lambda b: b * 0, ValueError)
    refused("*-1", lambda b: b * -1, ValueError)

    def d4(b):
        b.dimensions = 4
    refused("dimensions=4", d4, AssertionError)
    refused("other dimension", lambda b: Box.from_box(b, dimensions=5 - b.dimensions), ValueError)
    return O


class Refused(Exception):
    pass


def cases(tier):
    names = list(OPS)
    depth = 4 if tier == "thorough" else 3
    for i in INIT:
        yield {"init": i, "ops": []}
        for k in range(1, depth + 1):
            for head in itertools.product(names, repeat=max(0, k - 2)):
                yield {"init": i, "ops": list(head), "tail": min(k, 2)}
    for s in range(20):
        yield {"forms": s}


def observe(ctx, b, m, say):
    """Everything readable of the box, against the model."""
    ctx.state()

    def eq(a, x, tol=2e-6):
        a, x = np.asarray(a, float), np.asarray(x, float)
        return a.shape == x.shape and bool(np.all(np.abs(a - x) <= tol * (1 + np.abs(x))))

    def need(ok, what):
        if not ok:
            ctx.fail("after %s: %s" % (say(), what() if callable(what) else what))
    L, t = m.L, m.t
    need(eq(b.L, L) and eq([b.Lx, b.Ly, b.Lz], L), lambda: "L is %s, expected %s" % (b.L, L))
    need(eq([b.xy, b.xz, b.yz], t), lambda: "tilts are %s, expected %s" % ((b.xy, b.xz, b.yz), t))
    need(b.is2D is m.d2 and b.dimensions == (2 if m.d2 else 3), "dimensions is %s" % b.dimensions)
    need(b.periodic.tolist() == m.per and [b.periodic_x, b.periodic_y, b.periodic_z] == m.per,
         lambda: "periodic is %s, expected %s" % (b.periodic, m.per))
    V = L[0] * L[1] * (1 if m.d2 else L[2])
    need(eq(b.volume, V, 1e-5), lambda: "volume is %r, expected %r" % (b.volume, V))
    h = np.array([[L[0], t[0] * L[1], t[1] * L[2]], [0, L[1], t[2] * L[2]], [0, 0, L[2]]])
    need(eq(b.to_matrix(), h), lambda: "matrix is %s" % b.to_matrix().tolist())
    for k, v in enumerate((b.v1, b.v2, b.v3)):
        need(eq(v, h[:, k]) and eq(b.get_box_vector(k), h[:, k]), lambda: "box vector %d" % k)
    need(eq(b.to_box_params(), L + t), "to_box_params")
    d = b.to_dict()
    need(eq([d[x] for x in ("Lx", "Ly", "Lz", "xy", "xz", "yz", "dimensions")],
            L + t + [2 if m.d2 else 3]), lambda: "to_dict is %s" % d)
    need(b == b and not (b == 3), "equality with itself")
    need(bool(b.cubic) == (not m.d2 and max(L) - min(L) < 1e-5 and not any(t)),
         lambda: "cubic is %s" % b.cubic)
    if m.d2 or L[2]:
        li = [1 / L[0], 1 / L[1], 0 if m.d2 else 1 / L[2]]
        need(eq(b.L_inv, li, 1e-5), lambda: "L_inv is %s, expected %s" % (b.L_inv, li))
        # the geometry follows
        c = ref.Cell((L[0], L[1], 0 if m.d2 else L[2], t[0], 0 if m.d2 else t[1],
                      0 if m.d2 else t[2]))
        f = np.array([[0.25, 0.25, 0.5], [1.375, -0.75, 0.5], [-0.125, 2.125, 0.5]])
        if not m.d2:
            f[:, 2] = [0.125, 1.25, -1.875]
        a = b.make_absolute(f)
        need(eq(a, c.absolute(f), 2e-5), lambda: "make_absolute(%s) = %s, expected %s" % (
            f.tolist(), a.tolist(), c.absolute(f).tolist()))
        g = f.copy()
        if m.d2:
            g[:, 2] = 0
        fr = b.make_fractional(c.absolute(f))
        need(eq(fr, g, 2e-5), lambda: "make_fractional gives %s for %s" % (fr.tolist(), g.tolist()))
        w = np.where(np.array(m.per), f % 1.0, f)
        wa = b.wrap(c.absolute(f))
        need(eq(wa, c.absolute(w), 5e-5), lambda: "wrap gives %s, expected %s" % (
            wa.tolist(), c.absolute(w).tolist()))
        la = b.to_box_lengths_and_angles()
        ex = [np.linalg.norm(h[:, k]) for k in range(3)]
        need(eq(la[:3], ex, 1e-5), lambda: "lengths are %s" % (la[:3],))
        if not m.d2:
            e = [h[:, k] / ex[k] for k in range(3)]
            an = [np.arccos(np.clip(e[i] @ e[j], -1, 1)) for i, j in ((1, 2), (0, 2), (0, 1))]
            need(eq(la[3:], an, 1e-5), lambda: "angles are %s, expected %s" % (la[3:], an))


def check(case, ctx):
    if "forms" in case:
        return forms(case["forms"], ctx)
    init = INIT[case["init"]]
    tails = itertools.product(OPS, repeat=case["tail"]) if "tail" in case else [()]
    for tail in tails:
        seq = case["ops"] + list(tail)
        m = M(*init)
        b = Box(*init[:6], is2D=init[6])
        say = lambda k=0: "%s, %s" % (case["init"], ", ".join(seq[:k]))  # noqa
        done = True
        for k, name in enumerate(seq):
            f, g = OPS[name]
            if not m.d2 and not m.L[2] and (name in NEW or name == "!other dimension"):
                done = False     # a 3D box without depth cannot be converted
                break
            old = m.clone()
            try:
                nb = f(b)
            except Refused:
                ctx.fail("after %s: %s is not refused" % (say(k), name))
            except Exception as e:
                ctx.fail("after %s: %s: %s: %s" % (say(k), name, type(e).__name__, e))
            g(m)
            ctx.step()
            if nb is not None:
                # the box it came from is as before and shares nothing
                same = nb == b
                want = old.key() == m.key()
                if max(abs(x - y) for x, y in zip(old.key(), m.key())) == 0 and name not in APPROX:
                    ctx.require(same == want, lambda: "after %s: %s == its source is %s" % (
                        say(k), name, same))
                if name != "convert" and k == len(seq) - 1:
                    observe(ctx, b, old, lambda: say(k) + " (source of %s)" % name)
                    nb2 = f(b)
                    nb2.Lx = 1.5
                    nb2.periodic_x = not nb2.periodic_x
                    observe(ctx, b, old, lambda: say(k) + " (changing a copy from %s)" % name)
                b = nb
        if done:
            observe(ctx, b, m, lambda: say(len(seq)))
            ctx.traces += 1


NEW = {"*2", "0.5*", "from_box", "dict", "kwargs", "list6", "eval", "object", "matrix",
       "lengths+angles"}
APPROX = {"matrix", "lengths+angles"}


def forms(s, ctx):
    """Every way to write the same box down gives the same box."""
    rs = np.random.RandomState(s)
    for _ in range(5):
        L = (rs.rand(3) * 9 + 1).round(2)
        t = (rs.rand(3) * 2 - 1).round(2)
        if s % 3 == 0:
            t[:] = 0
        for d2 in (False, True):
            Lz = 0 if d2 else L[2]
            tt = (t[0], 0, 0) if d2 else tuple(t)
            m = M(L[0], L[1], Lz, *tt, d2)
            h = np.array([[L[0], tt[0] * L[1], tt[1] * Lz], [0, L[1], tt[2] * Lz], [0, 0, Lz]])
            d = {"Lx": L[0], "Ly": L[1], "Lz": Lz, "xy": tt[0], "xz": tt[1], "yz": tt[2]}
            o = Obj()
            o.__dict__.update(d)
            e = np.array([np.linalg.norm(h[:, k]) for k in range(3)])
            fs = {"list": [L[0], L[1], Lz, *tt], "tuple": (L[0], L[1], Lz, *tt),
                  "array": np.array([L[0], L[1], Lz, *tt]), "dict": d, "object": o, "matrix": h,
                  "matrix list": h.tolist(), "box": Box(L[0], L[1], Lz, *tt)}
            if not any(tt):
                fs["list3"] = [L[0], L[1], Lz]
                if d2:
                    fs["list2"] = [L[0], L[1]]
                    fs["dict2"] = {"Lx": L[0], "Ly": L[1]}
            for k, v in fs.items():
                b = Box.from_box(v)
                observe(ctx, b, m, lambda: "from_box(%s) of %s" % (k, v))
                ctx.step()
                b = Box.from_box(v, dimensions=2 if d2 else 3)
                observe(ctx, b, m, lambda: "from_box(%s, dimensions) of %s" % (k, v))
                b = freud.locality.AABBQuery(v, np.zeros((1, 3))).box
                observe(ctx, b, m, lambda: "the box of a query on (%s) of %s" % (k, v))
            # a 3D description with dimensions=2
            if d2:
                b = Box.from_box([L[0], L[1], 3.0, tt[0], 0, 0], dimensions=2)
                observe(ctx, b, m, lambda: "from_box(3D list, dimensions=2)")
            # rotated matrices describe the same cell
            q, _ = np.linalg.qr(rs.randn(3, 3))
            if np.linalg.det(q) < 0:
                q[:, 0] *= -1
            if not d2:
                b = Box.from_matrix(q @ h)
                r = Box.from_matrix(h)
                ctx.require(np.allclose(b.to_box_params(), r.to_box_params(), atol=3e-5),
                            lambda: "from_matrix of a rotated matrix: %s, expected %s" % (
                                b.to_box_params(), r.to_box_params()))
                an = [np.arccos(h[:, i] @ h[:, j] / e[i] / e[j])
                      for i, j in ((1, 2), (0, 2), (0, 1))]
                b = Box.from_box_lengths_and_angles(*e, *an)
                ctx.require(np.allclose(b.to_box_params(), m.L + m.t, atol=3e-5),
                            lambda: "from_box_lengths_and_angles: %s, expected %s" % (
                                b.to_box_params(), m.L + m.t))
                for k in range(3):
                    for bad in (0.0, np.pi, -0.5, 4.0):
                        x = [1.2, 1.3, 1.1]
                        x[k] = bad
                        try:
                            Box.from_box_lengths_and_angles(*e, *x)
                        except ValueError:
                            continue
                        ctx.fail("from_box_lengths_and_angles accepts angles %s" % x)
    c, q = Box.cube(3.5), Box.square(4.5)
    observe(ctx, c, M(3.5, 3.5, 3.5, 0, 0, 0, False), lambda: "cube")
    observe(ctx, q, M(4.5, 4.5, 0, 0, 0, 0, True), lambda: "square")
    for bad in (lambda: Box(0, 1, 1), lambda: Box(1, 0, 1), lambda: Box(1, 1, 0, is2D=False),
                lambda: Box(0, 1), lambda: Box(1, 0), lambda: Box.from_box([1]),
                lambda: Box.from_box([1, 2, 3, 4]), lambda: Box.from_box([1, 2, 3, 0, 0, 0, 0]),
                lambda: Box.from_box(Box.cube(2), dimensions=2),
                lambda: Box.from_box({"Lx": 1, "Ly": 2, "Lz": 1, "dimensions": 3}, dimensions=2)):
        try:
            bad()
        except ValueError:
            continue
        ctx.fail("an invalid box is accepted")
    # equality distinguishes every parameter
    base = Box(8, 7, 6, 0.1, 0.2, 0.3)
    for a, v in (("Lx", 5), ("Ly", 5), ("Lz", 5), ("xy", 0.4), ("xz", 0.4), ("yz", 0.4),
                 ("dimensions", 2), ("periodic_x", False), ("periodic_y", False),
                 ("periodic_z", False)):
        b = Box.from_box(base)
        ctx.require(b == base, "a copy differs")
        setattr(b, a, v)
        ctx.require(b != base, "boxes that differ in %s are equal" % a)
    # ... from whichever value, on either side
    vals = (("Lx", (8, 5)), ("Ly", (7, 8)), ("Lz", (6, 1)), ("xy", (0, 0.1, -0.1)), ("xz", (0, 0.2, -0.2)), ("yz", (0, 0.3, -0.3)),
            ("periodic_x", (True, False)), ("periodic_y", (True, False)), ("periodic_z", (True, False)))
    for d2, tilted, (a, vs) in itertools.product((False, True), (False, True), vals):
        if d2 and a in ("Lz", "xz", "yz"):
            continue
        made = []
        for v in vs:
            b = Box(8, 7, 0 if d2 else 6, *((0.1, 0 if d2 else 0.2, 0 if d2 else 0.3) if tilted else (0, 0, 0)), is2D=d2)
            setattr(b, a, v)
            made.append(b)
        for x, y in itertools.product(range(len(vs)), repeat=2):
            ctx.require((made[x] == made[y]) == (x == y) and (made[x] != made[y]) == (x != y),
                        lambda: "boxes with %s of %s and %s: equal is %s" % (a, vs[x], vs[y], made[x] == made[y]))
            ctx.step()
    ctx.traces += 1
