"""What holds for every computation also holds for the classes that this sandbox's build leaves out."""
from mc import zoo

VARIANTS = ["full"]
BOUNDS = {
    "quick": "19 computations of the 9 classes: partitions of their loops (P01), plots (P06), histories (P13), readability (P14), forms of input (P24), "
             "translations and orders (P27), what was read (P28), refusals (P29), settings (P30), each within the bounds of that property's quick tier",
    "thorough": "as quick within the bounds of the thorough tiers, partitions and histories as in the quick one",
}
HANG = 600
PARTS = ("p01", "p06", "p13", "p14", "p24", "p27", "p28", "p29", "p30")
M = {}


def table(freud):
    """As that of P30."""
    import numpy as np
    f = np.float32
    O, E, X = freud.order, freud.environment, freud.diffraction
    same = lambda *a: {k: lambda kw, k=k: kw[k] for k in a}  # noqa
    w = (False, True)
    return {
        "stein": (O.Steinhardt, {"l": (0, 6, [4], [2, 11, 6]), "average": w, "wl": w, "weighted": w, "wl_normalize": w},
                  dict(same("average", "wl", "weighted", "wl_normalize"), l=lambda k: 4 if k["l"] == [4] else k["l"])),
        "solliq1": (O.SolidLiquid, {"l": (2, 6), "q_threshold": (0.7, 0.25), "solid_threshold": (0, 6), "normalize_q": w},
                    dict(same("l", "solid_threshold", "normalize_q"), q_threshold=lambda k: f(k["q_threshold"]))),
        "nematic": (O.Nematic, {}, {}),
        "ldglob": (E.LocalDescriptors, {"l_max": (0, 3, 8), "negative_m": w, "mode": ("neighborhood", "global")},
                   same("l_max", "negative_m", "mode")),
        "ldpart": (E.LocalDescriptors, {"l_max": (0, 3, 8), "negative_m": w, "mode": ("particle_local",)},
                   same("l_max", "negative_m", "mode")),
        "envclu0": (E.EnvironmentCluster, {}, {}),
        "motif0": (E.EnvironmentMotifMatch, {}, {}),
        "voronoi": (freud.locality.Voronoi, {}, {}),
        "contcoord": (O.ContinuousCoordination, {"powers": (None, [2.0], [2.5, 4.0, -1.0], []), "compute_log": w, "compute_exp": w},
                      dict(same("compute_log", "compute_exp"), powers=lambda k: [2.0] if k["powers"] is None else k["powers"],
                           number_of_coordinations=lambda k: (1 if k["powers"] is None else len(k["powers"])) + k["compute_log"] + k["compute_exp"])),
        "ssfdirect": (X.StaticStructureFactorDirect, {"bins": (1, 2, 7, 100), "k_max": (3.0, 10.5), "k_min": (0, 0.5, 2.25), "num_sampled_k_points": (0, 40)},
                      {"nbins": lambda k: k["bins"], "num_sampled_k_points": lambda k: k["num_sampled_k_points"],
                       "bounds": lambda k: (f(k["k_min"]), f(k["k_max"])), "k_min": lambda k: f(k["k_min"]), "k_max": lambda k: f(k["k_max"]),
                       "bin_edges": lambda k: np.linspace(k["k_min"], k["k_max"], k["bins"] + 1),
                       "bin_centers": lambda k: np.linspace(k["k_min"], k["k_max"], 2 * k["bins"] + 1)[1::2]}),
    }


BAD = {
    "stein": [dict(l=-1), dict(l=[]), dict(l=[4, -2]), dict(l="six"), dict(l=2.5)],
    "solliq1": [dict(l=6, q_threshold=-0.1, solid_threshold=2), dict(l=-6, q_threshold=0.1, solid_threshold=2)],
    "ldglob": [dict(l_max=2, mode="particle"), dict(l_max=2, mode=None)],
    "ssfdirect": [dict(bins=0, k_max=1), dict(bins=5, k_max=0), dict(bins=5, k_max=-1), dict(bins=5, k_max=1, k_min=-1),
                  dict(bins=5, k_max=1, k_min=2), dict(bins=5, k_max=1, k_min=1)],
}


def setup(ctx):
    import importlib
    global C
    import freud
    C = zoo.full_catalog()
    for k in PARTS:
        m = M[k] = importlib.import_module("mc.checks." + k)
        m.setup(ctx)
        m.C = dict(C)
        m.freud = freud
    M["p06"].F = M["p06"].left_out()
    M["p06"].NAMES = list(M["p06"].F)
    M["p30"].T = table(freud)
    M["p30"].BAD = BAD
    M["p30"].NAMES = sorted(M["p30"].T)


def stable(e, k, c):
    """Whether the property is meant for the entry's results."""
    if e.random and k not in ("p14", "p28"):
        return False
    if e.ordered or k not in ("p24", "p27"):
        return True
    # greedy pairings, and axes known up to their signs, depend on the order of vectors
    return c["c"] == "arrays" or (c["c"] in ("move", "systems") and e.name != "ldneig")


def cases(tier):
    for k in PARTS:
        for c in M[k].cases("quick" if k in ("p01", "p06", "p13", "p28") else tier):
            if k == "p30" or c.get("c") == "result" or k != "p06" and c.get("e") and stable(C[c["e"]], k, c):
                yield dict(c, part=k)


def check(case, ctx):
    c = dict(case)
    M[c.pop("part")].check(c, ctx)
