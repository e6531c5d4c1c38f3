"""Histograms of reference values known up to rounding."""
import itertools

import numpy as np


def candidates(v, lo, hi, n, tol, periodic=False):
    """Bins that a value within tol of v may fall into; None stands for none."""
    w = (hi - lo) / n
    out = set()
    for x in (v - tol, v + tol):
        k = int(np.floor((x - lo) / w))
        if periodic:
            out.add(k % n)
        elif x < lo or x >= hi or k < 0 or k >= n:
            out.add(None)
        else:
            out.add(k)
    return out


def bounds(rows, axes):
    """rows: one list of (value, tol) per event; axes: (lo, hi, n, periodic). Least and greatest counts per bin
    and in total."""
    shape = tuple(a[2] for a in axes)
    lo = np.zeros(shape, int)
    hi = np.zeros(shape, int)
    tot = [0, 0]
    for r in rows:
        c = [candidates(v, a[0], a[1], a[2], t, a[3]) for (v, t), a in zip(r, axes)]
        if any(x == {None} for x in c):
            continue
        sure = all(None not in x for x in c)
        cells = [k for k in itertools.product(*c) if None not in k]
        for k in cells:
            hi[k] += 1
        if sure:
            tot[0] += 1
            if len(cells) == 1:
                lo[cells[0]] += 1
        tot[1] += 1
    return lo, hi, tot


def bounds1(v, lo, hi, n, tol):
    """The same for many values along one axis."""
    e = np.linspace(lo, hi, n + 1)
    a = np.searchsorted(e, np.asarray(v) - tol, side="right") - 1
    b = np.searchsorted(e, np.asarray(v) + tol, side="right") - 1
    inside = lambda k: (k >= 0) & (k < n)  # noqa
    mn = np.zeros(n, int)
    mx = np.zeros(n, int)
    eq = (a == b) & inside(a)
    np.add.at(mn, a[eq], 1)
    np.add.at(mx, a[inside(a)], 1)
    df = (a != b) & inside(b)
    np.add.at(mx, b[df], 1)
    return mn, mx, [int((inside(a) & inside(b)).sum()), int((inside(a) | inside(b)).sum())]


def check(counts, b, ctx, what):
    lo, hi, tot = b
    counts = np.asarray(counts, np.int64)
    ctx.require(counts.shape == lo.shape, lambda: "%s: bin_counts of shape %s, expected %s" % (
        what, counts.shape, lo.shape))
    ctx.require(tot[0] <= counts.sum() <= tot[1], lambda: "%s: %d bonds counted, expected %s" % (
        what, counts.sum(), tot))
    bad = (counts < lo) | (counts > hi)
    ctx.require(not bad.any(), lambda: "%s: bin %s holds %d, expected %d to %d" % (
        what, [int(x[0]) for x in np.nonzero(bad)], counts[bad][0], lo[bad][0], hi[bad][0]))
