"""
Explicit enumeration of all polylines on a small lattice up to a length (open, closed, self-crossing, doubling back), of several tolerances, planes and scales, and of polydata mixing them with
other cells. Every result of the real decimate_rdp is checked to be a subsequence with the same ends that stays within the tolerance of every removed point,
and to keep no point where the line goes straight on.
"""

import numpy as np
import pyvista as pv

from .. import geo
from ..core import Skip, check

ID = "C24"
PROPERTY = dict(
    title="Decimated lines keep their ends and stay within the tolerance",
    statement=(
        "decimate_rdp returns, for every line and polyline of the input and in the same order, a subsequence of its points with the same first and last point, such that every removed point lies within the tolerance of the "
        "segment that replaces it, also for closed lines and lines that cross themselves or double back. With a negligible tolerance exactly the points where the line goes straight on between its ends are removed, two-point lines are never changed, and cells other than lines are left out."
    ),
    quantifier=dict(over=["inputs"], text="all polylines, tolerances and mixes of cells"),
    why_tests_cant="Tests decimate one or two simple lines; the recursion errs only for particular shapes (closed, doubling back, farthest point next to an end).",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="Ramer-Douglas-Peucker recursion", where="utils/_misc.py decimate_rdp")],
    state=["line cells", "tolerance"],
    level_note="All lattice polylines of up to 5 points on 3x2 (thorough: 6 points, and 5 points on 3x3).",
)
ASSUMPTIONS = []


def gen_path(nx, ny, n_max):
    grid = [(i, j) for j in range(ny) for i in range(nx)]

    def g(ctx):
        n = ctx.choose("n", list(range(2, n_max + 1)), free=True)
        path = [ctx.choose("p0", grid, free=True)]

        for i in range(1, n):
            path.append(ctx.choose(f"p{i}", [q for q in grid if q != path[-1]], free=True))

        plane = ctx.choose("plane", (0, 1, 2))
        tol = ctx.choose("tol", (None, 0.6, 1.1))
        scale = ctx.choose("scale", (1.0, 1000.0))

        return dict(lines=[[list(p) for p in path]], plane=plane, tol=tol, scale=scale, extra="")

    return g


LINES = [
    [(0, 0), (1, 0), (2, 0)],
    [(0, 0), (1, 0), (2, 0), (2, 1), (1, 1), (0, 1), (0, 0)],
    [(0, 0), (2, 0)],
    [(2, 0), (1, 1), (0, 0), (0, 2)],
    [(1, 0), (2, 0), (2, 2), (0, 2), (0, 0), (1, 0)],
    [(0, 0), (2, 0), (1, 0), (1, 1)],
]


def gen_multi(n_max):
    def g(ctx):
        n = ctx.choose("n", list(range(1, n_max + 1)), free=True)
        lines = [[list(p) for p in ctx.choose(f"l{i}", LINES, free=True)] for i in range(n)]

        return dict(lines=lines, plane=0, tol=ctx.choose("tol", (None, 0.6)), scale=1.0, extra=ctx.choose("extra", ("", "face", "vert"), free=True))

    return g


def gen_long(ctx):
    """Regular polygons and spirals with many points, closed or not."""
    n = ctx.choose("n", (12, 37, 80), free=True)
    shape = ctx.choose("shape", ("circle", "spiral", "wave", "comb"), free=True)
    t = np.linspace(0.0, 2 * np.pi, n)
    p = {
        "circle": lambda: np.column_stack((np.cos(t), np.sin(t))),
        "spiral": lambda: np.column_stack((t * np.cos(2 * t), t * np.sin(2 * t))),
        "wave": lambda: np.column_stack((t, np.sin(3 * t))),
        "comb": lambda: np.array([(i // 2, (i // 2 + i) % 2) for i in range(n)], float),
    }[shape]()

    if shape == "circle":
        p[-1] = p[0]

    p = np.round(p, 6)

    return dict(lines=[p.tolist()], plane=ctx.choose("plane", (0, 1, 2), free=True), tol=ctx.choose("tol", (None, 0.001, 0.05, 0.3, 3.0), free=True), scale=1.0, extra="")


def gen_large(ctx):
    """Zigzags and waves of more points than loops or recursions may expect."""
    n = ctx.choose("n", (1100, 2500), free=True)

    return dict(large=[n, ctx.choose("shape", ("shrinking", "growing", "even", "wave"), free=True)], plane=0, tol=ctx.choose("tol", (None, 0.5), free=True), scale=1.0, extra="")


def large(n, shape):
    k = np.arange(n)
    y = {"shrinking": np.linspace(5.0, 2.0, n), "growing": np.linspace(2.0, 5.0, n), "even": np.full(n, 2.0), "wave": 2.0 + np.sin(k / 100.0)}[shape]

    return np.column_stack((k, y * np.where(k % 2, 1.0, -1.0))).tolist()


def spaces(tier):
    if tier == "quick":
        return [("lattice", gen_path(3, 2, 5), 1), ("several", gen_multi(2), None), ("long", gen_long, None), ("large", gen_large, None)]

    return [("lattice", gen_path(3, 2, 6), 1), ("lattice3", gen_path(3, 3, 5), 1), ("several", gen_multi(3), None), ("long", gen_long, None), ("large", gen_large, None)]


def place(p, plane):
    p = np.asarray(p, float)
    z = np.full(len(p), 0.5)

    return np.column_stack([(p[:, 0], p[:, 1], z), (p[:, 0], z, p[:, 1]), (z, p[:, 0], p[:, 1])][plane])


def dist(p, a, b):
    u = b - a
    n = u @ u
    t = 0.0 if n == 0.0 else min(1.0, max(0.0, (p - a) @ u / n))

    return np.linalg.norm(p - a - t * u)


def covers(xyz, got, tol):
    """
    A way to read *got* as a subsequence of *xyz* with both ends such that the points in between lie within the tolerance (points may occur several times).
    """
    reach = {0}

    if not np.array_equal(got[0], xyz[0]):
        return False

    for k in range(1, len(got)):
        nxt = set()

        for i in reach:
            for j in i + 1 + np.flatnonzero((np.abs(xyz[i + 1 :] - got[k]) <= 1e-9 + 1e-5 * np.abs(got[k])).all(axis=1)):
                if all(dist(p, xyz[i], xyz[j]) <= tol + 1e-9 for p in xyz[i + 1 : j]):
                    nxt.add(j)

        reach = nxt

    return len(xyz) - 1 in reach


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case)[:3000])
    s = case["scale"]
    pts, cells, model = [], [], []

    for line in [large(*case["large"])] if "large" in case else case["lines"]:
        xyz = place(line, case["plane"]) * s
        cells.append(list(range(len(pts), len(pts) + len(xyz))))
        pts += xyz.tolist()
        model.append(xyz)

        # a closed line within the tolerance of its end vanishes
        t = (1e-8 if case["tol"] is None else case["tol"]) * s

        if np.array_equal(xyz[0], xyz[-1]) and np.linalg.norm(xyz - xyz[0], axis=1).max() <= t:
            raise Skip

    kw = {}

    if case["extra"] == "face":
        kw["faces"] = [3, 0, 1, 2]
        pts += [] if len(pts) > 2 else [[9.0, 9.0, 9.0]]

    if case["extra"] == "vert":
        kw["verts"] = [1, 0]

    mesh = pv.PolyData(np.array(pts), lines=[q for c in cells for q in (len(c), *c)], **kw)
    tol = case["tol"]
    out = rec.call(pvg.decimate_rdp, mesh) if tol is None else rec.call(pvg.decimate_rdp, mesh, tol * s)
    tol_ = 1e-8 if tol is None else tol * s
    check(isinstance(out, pv.PolyData), "not a polydata")
    check(out.n_verts == 0 and out.n_faces_strict == 0, "cells other than lines in the result")
    got = [np.array(out.points, float)[list(c)] for _, c in geo.cells_of(out)]
    check(len(got) == len(model), "{} lines instead of {}", len(got), len(model))
    check(len(np.unique(np.vstack(got), axis=0)) == out.n_points, "unused or repeated points")

    for i, (g, xyz) in enumerate(zip(got, model)):
        check(covers(xyz, g, tol_), "line {}: {} does not represent {} within {}", i, g.tolist(), xyz.tolist()[:8], tol_)

        if len(xyz) == 2:
            check(len(g) == 2, "two-point line changed")

        if tol is None:
            for a, b, c in zip(g[:-2], g[1:-1], g[2:]):
                straight = np.linalg.norm(np.cross(b - a, c - b)) <= 1e-9 * s and (b - a) @ (c - b) > 0
                check(not straight, "line {}: point {} where the line goes straight on is kept", i, b)

    rec.outcome(*got)
