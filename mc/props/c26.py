"""
Explicit enumeration of all orders of small point sets (generic points, points on a line, a circle, a lattice, repeated points), every starting point, open and closed, in 2D and 3D and from every kind of input.
The returned line has to visit every point once from the requested start, must not be longer than the given order, and on generic point sets no reversal of
a part of it may be shorter (all reversals are tried).
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo
from ..core import Skip, check

ID = "C26"
PROPERTY = dict(
    title="Reconstructed lines visit every point once and cannot be untangled further",
    statement=(
        "reconstruct_line always terminates and returns a line that starts at the given point and visits every point exactly once (returning to the start if closed), for coordinates in 2D (embedded at zero elevation) and 3D and for any dataset. "
        "It is never longer than the points in their given order from the start on, and reversing any part of it after the start does not make it shorter, so that in particular points of a straight line are "
        "ordered along it when starting from one of its ends."
    ),
    quantifier=dict(over=["inputs"], text="all point sets, orders, starts and input types, open and closed"),
    why_tests_cant="Tests only count points, any permutation would pass.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="2-opt", where="utils/_misc.py reconstruct_line")],
    state=["current path"],
    level_note="All orders of up to 5 (quick) or 7 (thorough) points with every start.",
)
ASSUMPTIONS = ["optimality is required on point sets without ties only"]
HANG_S = 30.0

rng = np.array([(0.0, 0.13), (1.07, 0.31), (2.21, -0.17), (2.93, 1.11), (1.41, 1.83), (0.37, 2.29), (3.3, 2.6)])
SETS = {
    "generic": np.column_stack((rng, [0.0, 0.21, 0.43, -0.1, 0.3, 0.7, 0.11])),
    "line": np.array([(0, 0, 0), (1.0, 0.5, 0), (2.5, 1.25, 0), (3.25, 1.625, 0), (4.75, 2.375, 0), (6, 3, 0), (7.5, 3.75, 0)]),
    "lattice": np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (2, 0, 0), (2, 1, 0), (0, 2, 0)], float),
    "repeated": np.array([(0, 0, 0), (1, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 0), (2, 2, 0), (1, 0, 0)], float),
    "same": np.zeros((7, 3)) + 1.0,
}


def gen(n_max, n_lattice):
    def g(ctx):
        kind = ctx.choose("set", sorted(SETS), free=True)
        n = ctx.choose("n", list(range(1, (n_max if kind in ("generic", "line") else n_lattice) + 1)), free=True)
        perm = ctx.choose("perm", list(itertools.permutations(range(n))) if kind != "same" else [tuple(range(n))], free=True)
        start = ctx.choose("start", list(range(n)), free=True)
        close = ctx.flag("close", free=True)
        how = ctx.choose("how", ("array", "2d", "list", "poly", "ug", "struct"), free=n <= 3)

        return dict(set=kind, perm=list(perm), start=start, close=close, how=how)

    return g


def gen_bad(ctx):
    return dict(bad=ctx.choose("shape", (1, 4), free=True))


def spaces(tier):
    return [("orders", gen(*((5, 4) if tier == "quick" else (6, 6))), 1 if tier == "quick" else 1), ("invalid", gen_bad, None)]


def length(p, close):
    q = np.vstack((p, p[:1])) if close else p

    return float(np.linalg.norm(np.diff(q, axis=0), axis=1).sum())


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "bad" in case:
        rec.raises(ValueError, pvg.reconstruct_line, np.zeros((5, case["bad"])))
        return

    p = SETS[case["set"]][case["perm"]]
    n, start, close, how = len(p), case["start"], case["close"], case["how"]

    if how == "2d":
        p = p * [1, 1, 0]

    arg = {
        "array": lambda: p,
        "2d": lambda: p[:, :2],
        "list": lambda: p.tolist(),
        "poly": lambda: pv.PolyData(p),
        "ug": lambda: pv.PolyData(p).cast_to_unstructured_grid(),
        "struct": lambda: pv.StructuredGrid(p[:, :1, None], p[:, 1:2, None], p[:, 2:, None]),
    }[how]()

    if n < 2:
        raise Skip

    kw = {}

    if start:
        kw["start"] = start

    if close:
        kw["close"] = True

    out = rec.call(pvg.reconstruct_line, arg, **kw)
    check(isinstance(out, pv.PolyData), "not a polydata")
    q = np.array(out.points, float)
    cells = [[int(i) for i in c] for _, c in geo.cells_of(out)]
    walk = [cells[0][0]]

    for c in cells:
        check(c[0] == walk[-1], "the line is not continuous")
        walk += c[1:]

    w = q[walk]

    if close:
        check(geo.close(w[0], w[-1], 1e-9), "the line is not closed")
        w = w[:-1]

    check(len(w) == n, "{} points visited instead of {}", len(w), n)
    check(geo.close(w[np.lexsort(w.T)], p[np.lexsort(p.T)], 1e-6), "not every point is visited once")
    check(geo.close(w[0], p[start], 1e-7), "starts at {} instead of {}", w[0], p[start])
    first = np.roll(p, -start, axis=0)
    lw = length(w, close)
    check(lw <= length(first, close) + 1e-9, "longer than the given order")

    if case["set"] in ("generic", "line") and not (case["set"] == "line" and close):
        # ties occur on a straight line unless the start is an end
        if case["set"] == "line" and case["perm"][start] not in (0, n - 1):
            return

        for i in range(1, n):
            for j in range(i + 2, n + 1):
                v = w.copy()
                v[i:j] = v[i:j][::-1]
                check(length(v, close) > lw - 1e-6, "reversing points {} to {} makes the line shorter", i, j - 1)

        if case["set"] == "line":
            t = w[:, 0]
            check((np.diff(t) > 0).all() or (np.diff(t) < 0).all(), "points of a straight line are not ordered along it")

    rec.outcome(w)
