"""Compute objects report the settings they were made with, and reject the ones that make no sense."""
import itertools

import numpy as np

from mc import ref, zoo

BOUNDS = {
    "quick": "20 classes x every combination of 2 to 5 values per constructor argument: each setting, "
             "repr and str, and both again after computing; every documented invalid value of each argument",
    "thorough": "as quick",
}
HANG = 120
RS = (0.5, 1.7, 2.5, 3.0)


def table():
    """name: (class, {argument: values}, {attribute: f(kwargs)})"""
    D, O, P, E, L = freud.density, freud.order, freud.pmft, freud.environment, freud.locality
    f = np.float32
    w3 = lambda k: (k["width"],) * 3 if isinstance(k["width"], int) else tuple(  # noqa
        list(k["width"]) + [1])[:3]
    nb = lambda n: lambda k: [k["bins"]] * n if np.isscalar(k["bins"]) else list(k["bins"])  # noqa
    bd = lambda *a: lambda k: [(-f(k[x]), f(k[x])) if x else (f(0), f(2 * np.pi)) for x in a]  # noqa
    return {
        "rdf": (D.RDF, {"bins": (1, 2, 7, 100), "r_max": RS[1:], "r_min": (0, 0.25, 1.1),
                        "normalization_mode": ("exact", "finite_size")},
                {"nbins": lambda k: k["bins"], "bounds": lambda k: (f(k["r_min"]), f(k["r_max"])),
                 "mode": lambda k: k["normalization_mode"],
                 "default_query_args": lambda k: {"mode": "ball", "r_max": k["r_max"]}}),
        "corr": (D.CorrelationFunction, {"bins": (1, 2, 7, 100), "r_max": RS},
                 {"nbins": lambda k: k["bins"], "bounds": lambda k: (f(0), f(k["r_max"])),
                  "default_query_args": lambda k: {"mode": "ball", "r_max": k["r_max"]}}),
        "gauss": (D.GaussianDensity, {"width": (1, 4, (3, 5), [5, 3], (2, 3, 4), [4, 2, 3]),
                                      "r_max": RS, "sigma": (0.1, 0.7)},
                  {"width": w3, "r_max": lambda k: f(k["r_max"]), "sigma": lambda k: f(k["sigma"])}),
        "voxel": (D.SphereVoxelization, {"width": (1, 4, (3, 5), [5, 3], (2, 3, 4), [4, 2, 3]),
                                         "r_max": RS},
                  {"width": w3, "r_max": lambda k: f(k["r_max"])}),
        "locden": (D.LocalDensity, {"r_max": RS, "diameter": (0, 0.4, 1.2)},
                   {"r_max": lambda k: f(k["r_max"]), "diameter": lambda k: f(k["diameter"]),
                    "default_query_args": lambda k: {
                        "mode": "ball", "r_max": f(k["r_max"]) + 0.5 * f(k["diameter"])}}),
        "pmftr12": (P.PMFTR12, {"r_max": RS, "bins": (1, 5, (3, 4, 5), [5, 4, 3])},
                    {"nbins": nb(3), "bounds": lambda k: [(f(0), f(k["r_max"]))] + bd(None, None)(k)}),
        "pmftxyt": (P.PMFTXYT, {"x_max": RS, "y_max": RS, "bins": (1, 5, (3, 4, 5), [5, 4, 3])},
                    {"nbins": nb(3), "bounds": bd("x_max", "y_max", None)}),
        "pmftxy": (P.PMFTXY, {"x_max": RS, "y_max": RS, "bins": (1, 5, (3, 4), [5, 4])},
                   {"nbins": nb(2), "bounds": bd("x_max", "y_max")}),
        "pmftxyz": (P.PMFTXYZ, {"x_max": RS[:2], "y_max": RS[1:3], "z_max": RS[2:],
                                "bins": (1, 5, (3, 4, 5), [5, 4, 3]),
                                "shiftvec": (None, [0, 0, 0], [1, 0.5, -2])},
                    {"nbins": nb(3), "bounds": bd("x_max", "y_max", "z_max"),
                     "shiftvec": lambda k: np.zeros(3) if k["shiftvec"] is None else k["shiftvec"]}),
        "bod": (E.BondOrder, {"bins": (2, 5, (3, 4), [5, 4]), "mode": ("bod", "lbod", "obcd", "oocd")},
                {"nbins": nb(2), "mode": lambda k: k["mode"],
                 "bounds": lambda k: [(f(0), f(2 * np.pi)), (f(0), f(np.pi))]}),
        "hex": (O.Hexatic, {"k": (1, 4, 6, 12), "weighted": (False, True)},
                {"k": lambda k: k["k"], "weighted": lambda k: k["weighted"],
                 "default_query_args": lambda k: {"mode": "nearest", "num_neighbors": k["k"]}}),
        "rotauto": (O.RotationalAutocorrelation, {"l": (0, 2, 4, 10)}, {"l": lambda k: k["l"]}),
        "cubatic": (O.Cubatic, {"t_initial": (5.0, 1.5), "t_final": (0.001, 0.1), "scale": (0.1, 0.9),
                                "n_replicates": (1, 10), "seed": (0, 7, 2 ** 31)},
                    {"t_initial": lambda k: f(k["t_initial"]), "t_final": lambda k: f(k["t_final"]),
                     "scale": lambda k: f(k["scale"]), "n_replicates": lambda k: k["n_replicates"],
                     "seed": lambda k: k["seed"]}),
        "debye": (freud.diffraction.StaticStructureFactorDebye,
                  {"num_k_values": (1, 2, 7, 100), "k_max": (3.0, 10.5), "k_min": (0, 0.5, 2.25)},
                  {"num_k_values": lambda k: k["num_k_values"], "k_min": lambda k: f(k["k_min"]),
                   "k_values": lambda k: np.linspace(k["k_min"], k["k_max"], k["num_k_values"]),
                   "k_max": lambda k: f(k["k_max"] if k["num_k_values"] > 1 else k["k_min"]),
                   "bounds": lambda k: (f(k["k_min"]), f(k["k_max" if k["num_k_values"] > 1 else "k_min"]))}),
        "diffr": (freud.diffraction.DiffractionPattern,
                  {"grid_size": (16, 24, 512), "output_size": (None, 8, 16, 100)},
                  {"grid_size": lambda k: k["grid_size"],
                   "output_size": lambda k: k["grid_size"] if k["output_size"] is None
                   else k["output_size"]}),
        "msd": (freud.msd.MSD, {"box": (None, "cube8", "generic", "sq"), "mode": ("window", "direct")},
                {"mode": lambda k: k["mode"], "box": lambda k: k["box"]}),
        "cluster": (freud.cluster.Cluster, {}, {}),
        "cprops": (freud.cluster.ClusterProperties, {}, {}),
        "angsep": (E.AngularSeparationNeighbor, {}, {}),
        "angglob": (E.AngularSeparationGlobal, {}, {}),
        "proj": (E.LocalBondProjection, {}, {}),
        "buffer": (L.PeriodicBuffer, {}, {}),
        "interface": (freud.interface.Interface, {}, {}),
    }


# class -> settings refused
BAD = {
    "rdf": [dict(bins=0, r_max=1), dict(bins=5, r_max=0), dict(bins=5, r_max=-1),
            dict(bins=5, r_max=1, r_min=-0.1), dict(bins=5, r_max=1, r_min=1),
            dict(bins=5, r_max=1, r_min=2), dict(bins=5, r_max=1, normalization_mode="none")],
    "corr": [dict(bins=0, r_max=1), dict(bins=5, r_max=0), dict(bins=5, r_max=-1)],
    "gauss": [dict(width=(1, 2, 3, 4), r_max=1, sigma=1), dict(width=(3,), r_max=1, sigma=1),
              dict(width="abcd", r_max=1, sigma=1), dict(width=3, r_max=0, sigma=1),
              dict(width=3, r_max=-1, sigma=1)],
    "voxel": [dict(width=(1, 2, 3, 4), r_max=1), dict(width=(3,), r_max=1), dict(width=3, r_max=0),
              dict(width=3, r_max=-1)],
    "pmftr12": [dict(r_max=a, bins=b) for a, b in (
        (-1, 5), (0, 5), (1, 0), (1, (0, 1, 1)), (1, (1, 0, 1)), (1, (1, 1, 0)), (1, (1, 2)))],
    "pmftxyt": [dict(x_max=a, y_max=b, bins=c) for a, b, c in (
        (-1, 1, 5), (0, 1, 5), (1, -1, 5), (1, 0, 5), (1, 1, 0), (1, 1, (0, 1, 1)), (1, 1, (1, 0, 1)),
        (1, 1, (1, 1, 0)), (1, 1, (1, 2)))],
    "pmftxy": [dict(x_max=a, y_max=b, bins=c) for a, b, c in (
        (-1, 1, 5), (0, 1, 5), (1, -1, 5), (1, 0, 5), (1, 1, 0), (1, 1, (0, 1)), (1, 1, (1, 0)),
        (1, 1, (1, 2, 3)))],
    "pmftxyz": [dict(x_max=a, y_max=b, z_max=z, bins=c) for a, b, z, c in (
        (-1, 1, 1, 5), (0, 1, 1, 5), (1, -1, 1, 5), (1, 0, 1, 5), (1, 1, -1, 5), (1, 1, 0, 5), (1, 1, 1, 0),
        (1, 1, 1, (0, 1, 1)), (1, 1, 1, (1, 0, 1)), (1, 1, 1, (1, 1, 0)), (1, 1, 1, (1, 2)))],
    "bod": [dict(bins=(0, 5)), dict(bins=(5, 0)), dict(bins=1), dict(bins=(1, 5)), dict(bins=(5, 1)),
            dict(bins=5, mode="x")],
    "rotauto": [dict(l=1), dict(l=3), dict(l=-2)],
    "cubatic": [dict(t_initial=a, t_final=b, scale=c) for a, b, c in (
        (1, 2, .5), (5, 0, .5), (5, 1e-9, .5), (5, 1, 0), (5, 1, 1), (5, 1, -1), (5, 1, 2))],
    "debye": [dict(num_k_values=0, k_max=1), dict(num_k_values=5, k_max=0),
              dict(num_k_values=5, k_max=-1), dict(num_k_values=5, k_max=1, k_min=-1),
              dict(num_k_values=5, k_max=1, k_min=2), dict(num_k_values=5, k_max=1, k_min=1)],
    "msd": [dict(mode="both")],
}


def setup(ctx):
    global freud, T, C
    import freud
    T = table()
    C = zoo.catalog()


NAMES = ("rdf", "corr", "gauss", "voxel", "locden", "pmftr12", "pmftxyt", "pmftxy", "pmftxyz", "bod", "hex",
         "rotauto", "cubatic", "debye", "diffr", "msd", "cluster", "cprops", "angsep", "angglob", "proj",
         "buffer", "interface")


def cases(tier):
    for n in NAMES:
        yield {"cls": n, "k": "good"}
        yield {"cls": n, "k": "used"}
    for n in BAD:
        yield {"cls": n, "k": "bad"}


def build(cls, kw):
    kw = dict(kw)
    if isinstance(kw.get("box"), str):
        kw["box"] = ref.Cell(kw["box"]).freud()
    return cls(**kw)


def norm(x):
    if isinstance(x, freud.box.Box):
        return tuple(x.to_dict().items())
    if isinstance(x, dict):
        return tuple(sorted((k, norm(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple, np.ndarray)):
        return norm(x[()]) if getattr(x, "shape", 1) == () else tuple(norm(v) for v in x)
    if isinstance(x, (bool, np.bool_, str)) or x is None:
        return x
    if isinstance(x, freud.locality.NeighborList):
        return len(x)
    return complex(x) if np.iscomplexobj(x) else float(np.float32(x))


def settings(o):
    """Every public property that can be read before compute."""
    out = {}
    for k in dir(type(o)):
        if k.startswith("_") or not isinstance(getattr(type(o), k, None), property):
            continue
        try:
            out[k] = norm(getattr(o, k))
        except (AttributeError, NotImplementedError):
            pass
    return out


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1)
    return type(a) is type(b) and a == b


def same(a, b):
    return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)


def report(o, attrs, kw, ctx, when):
    for a, f in attrs.items():
        want = f(kw)
        if isinstance(want, str) and a == "box":
            want = ref.Cell(want).freud()
        got = getattr(o, a)
        ctx.step()
        ctx.require(alike(norm(got), norm(want)), lambda: "%s(%s).%s is %r, expected %r%s" % (
            type(o).__name__, kw, a, got, want, when))


def check(case, ctx):
    cls, dom, attrs = T[case["cls"]]
    if case["k"] == "bad":
        for kw in BAD[case["cls"]]:
            ctx.state()
            try:
                o = build(cls, kw)
            except (ValueError, TypeError, RuntimeError):
                continue
            ctx.fail("%s accepts %s: %r" % (cls.__name__, kw, o))
        return
    names = sorted(dom)
    lost = []
    combos = [dict(zip(names, v)) for v in itertools.product(*[dom[n] for n in names])]
    if case["k"] == "used":
        combos = combos[::max(1, len(combos) // 12)]
    for kw in combos:
        o = build(cls, kw)
        ctx.state()
        report(o, attrs, kw, ctx, "")
        first = settings(o)
        ctx.require(str(o) == repr(o), lambda: "str of %r is %s" % (o, o))
        if kw.get("num_k_values") == 1:
            continue        # the bounds reported are those of the one value used
        elif case["cls"] == "debye" and kw["k_min"] == 0 and o.k_min < 0:
            lost.append(kw)  # repr cannot be evaluated
        elif kw.get("box") is None:
            o2 = eval(repr(o), {"freud": freud, "None": None})
            ctx.require(type(o2) is type(o) and same(settings(o2), first), lambda: "%r has settings %s; the "
                        "object with %s has %s" % (o2, settings(o2), kw, first))
            ctx.require(repr(o2) == repr(o) or case["cls"] == "debye", lambda: "%r and %r" % (o, o2))
        else:
            ctx.require("box=" in repr(o) and "mode=" in repr(o), lambda: repr(o))
        if case["k"] == "used":
            e = C[{"gauss": "gauss3", "voxel": "voxel3"}.get(case["cls"], case["cls"])]
            for d in ("2", "3"):
                if d not in e.dims and case["cls"] not in ("gauss", "voxel"):
                    continue
                w = kw.get("width")
                if w is not None and not np.isscalar(w) and len(w) != int(d):
                    continue
                o = build(cls, kw)
                s = zoo.System("cube8" if d == "3" else "sq", "gen:9")
                if w is not None:
                    o.compute((s.box, s.p))
                elif case["cls"] == "msd":
                    o.compute(np.stack([s.p, s.p + 1]))
                else:
                    e.run(o, s)
                if hasattr(type(o), "plot"):
                    o.plot
                report(o, attrs, kw, ctx, " after computing")
                now = settings(o)
                for k in dir(type(o)):
                    if isinstance(getattr(type(o), k, None), property) and k[0] != "_":
                        try:
                            getattr(o, k)
                        except NotImplementedError:
                            pass
                ctx.require(all(alike(now.get(k), v) for k, v in first.items()), lambda: "%r: settings were %s, "
                            "are %s after computing" % (o, first, now))
                ctx.step()
    ctx.traces += 1
    if lost:
        ctx.fail("StaticStructureFactorDebye: k_min=0 is reported as a negative number, so that repr "
                 "makes no object: %s" % lost, key="debye-kmin-negative")
