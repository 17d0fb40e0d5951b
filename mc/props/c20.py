"""
Full product of small 2D and 3D meshes (all cell types, holes, hidden cells, all dataset types) and polylines: every sequence of distinct points of a generic set inside and outside the mesh up to a length, so that the line starts, ends, bends, leaves and
comes back everywhere.  Every line is cut by hand with every edge or face and the cell of every part is found by half-space tests; the parts are joined by the stated rule and compared with the result.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import Skip, check
from .c21 import ROT, hit, matrix

ID = "C20"
PROPERTY = dict(
    title="Polylines are cut where they cross the cells and every part knows its cell",
    statement=(
        "intersect_polyline returns the polyline from its first to its last point, cut exactly where it crosses the edges (2D) or faces (3D) of the mesh: every part inside the mesh carries the index of the cell it lies in and joins the points "
        "where the line enters and leaves that cell (or starts or ends in it), parts outside the mesh or in hidden cells carry -1 and keep the vertices of the line, also if the line starts or ends inside the mesh or comes back after leaving it. "
        "Every part also carries the segment of the line it ends on, its length and the line's cell data, parts inside the mesh shorter than the minimum length are dropped, and the points before the first entry and after the last exit are left out on request."
    ),
    quantifier=dict(over=["inputs", "histories"], text="all meshes, polylines in general position and options within the bounds"),
    why_tests_cant="Tests follow four straight lines that start outside and cross the whole mesh.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="splitting and cell lookup", where="utils/_misc.py intersect_polyline"), dict(name="intersections", where="utils/_misc.py ray_cast")],
    state=["current cell", "entered or not"],
    level_note="All polylines of up to 4 (quick) or 5 (thorough) vertices out of nine (2D) or seven (3D) generic points.",
)
ASSUMPTIONS = ["the line does not run through a corner or along an edge; cells are convex and faces plane"]

A2 = [(-1.13, 0.31), (0.43, 0.23), (1.71, 1.37), (3.9, 3.3), (0.61, -1.3), (1.3, 0.9), (-0.7, 2.9), (0.31, 1.71), (2.9, 1.03)]
A3 = [(-1.13, 0.31, 0.77), (0.43, 0.23, 0.91), (1.71, 0.37, 1.21), (3.9, 3.3, 3.7), (0.61, -1.3, 1.1), (1.3, 0.22, -1.7), (-0.7, 1.9, 2.1)]


def common(ctx):
    return dict(
        rot=ctx.choose("rot", range(3)),
        shift=ctx.choose("shift", (0.0, 1000.0)),
        before=ctx.flag("before"),
        after=ctx.flag("after"),
        form=ctx.choose("form", ("poly", "lines", "poly64")),
        data=ctx.flag("data"),
        min_length=ctx.choose("min_length", (None, 0.3)),
    )


def seq(ctx, n, k):
    out = []

    for i in range(k):
        left = [j for j in range(n) if j not in out]
        out.append(ctx.choose("v", left, free=True))

    return out


def gen2(patterns, k_max):
    def g(ctx):
        cells = ctx.choose("cells", patterns, free=True)
        k = ctx.choose("k", range(2, k_max + 1), free=True)

        return dict(spec=dict(kind="cells2d", dims=[2, 2], cells=cells, axis=ctx.choose("axis", (2, 1, 0))), line=seq(ctx, len(A2), k), **common(ctx))

    return g


def gen3(patterns, k_max):
    def g(ctx):
        cells, dims = ctx.choose("cells", patterns, free=True)
        k = ctx.choose("k", range(2, k_max + 1), free=True)

        return dict(spec=dict(kind="cells3d", dims=dims, cells=cells), line=seq(ctx, len(A3), k), **common(ctx))

    return g


def gen_large(ctx):
    return dict(
        spec=dict(kind="cells2d", dims=[2, 2], cells="ttuu", axis=2), line=[0, 2, 6], lead=ctx.choose("lead", (1001, 1300), free=True), rot=0, shift=0.0,
        before=False, after=False, form=ctx.choose("form", ("lines", "poly64"), free=True), data=ctx.flag("data", free=True), min_length=None,
    )


def gen_struct(k_max):
    def g(ctx):
        dims = ctx.choose("dims", ([2, 2, 0], [2, 0, 2], [2, 1, 2], [0, 2, 2]), free=True)
        k = ctx.choose("k", range(2, k_max + 1), free=True)

        return dict(
            spec=dict(kind="structured", type=ctx.choose("type", ("struct", "image", "rect")), dims=dims),
            ghost=ctx.choose("ghost", (None, 0, 1, 3), free=True),
            line=seq(ctx, len(A3), k),
            rot=0,
            shift=0.0,
            before=ctx.flag("before"),
            after=ctx.flag("after"),
            form="poly64",
            data=False,
            min_length=None,
        )

    return g


P2Q = ["qqqq", "tuqq"]
P2T = ["qqqq", "ttuu", "tqqt", "xqox", "q-qq", "--qt", "q--q", "uttu", "qtuo"]
P3 = [("hh", [2, 1, 1]), ("pw", [2, 1, 1]), ("kv", [1, 1, 2]), ("yp", [1, 1, 2]), ("h-h", [1, 1, 3]), ("wk", [1, 2, 1])]


def spaces(tier):
    if tier == "quick":
        return [("surfaces", gen2(P2T[1:6], 3), 0), ("surfaces4", gen2(P2Q[:1], 4), 0), ("options2", gen2(["ttuu", "q-qq"], 2), 1), ("bends", gen2(["q-qt"], 3), 0), ("volumes", gen3(P3, 3), 0), ("options3", gen3(P3[1:2], 2), 2), ("structured", gen_struct(2), 0), ("large", gen_large, None)]

    return [("surfaces", gen2(P2T, 3), 1), ("surfaces4", gen2(P2T, 4), 0), ("surfaces5", gen2(["q-qq", "ttuu"], 5), 0), ("volumes", gen3(P3, 4), 0), ("options3", gen3(P3, 3), 1), ("structured", gen_struct(3), 1), ("options2x", gen2(["ttuu", "q-qq"], 2), 2), ("large", gen_large, None)]


def contains(t, c, P, x, eps=1e-9):
    """Convex cells."""
    if geo.DIM[t] == 2:
        ids = [c[i] for i in (0, 1, 3, 2)] if t == int(pv.CellType.PIXEL) else c
        q = P[ids]
        n = geo.area_vector(q)

        return all(np.cross(q[(i + 1) % len(q)] - q[i], x - q[i]) @ n > 0 for i in range(len(q)))

    m = P[sorted({int(i) for f in meshes.boundary(t, c) for i in f})].mean(axis=0)

    for f in meshes.boundary(t, c):
        q = P[f]
        n = geo.area_vector(q)

        if ((x - q[0]) @ n) * ((m - q[0]) @ n) <= 0:
            return False

    return True


def oracle(P, cells, L, ghost, min_length):
    """Parts (start, end, segment, cell) of the line."""
    F = {}

    for i, (t, c) in enumerate(cells):
        if i not in ghost:
            for f in meshes.boundary(t, c):
                F.setdefault(frozenset(f), f)

    parts = []

    for lid, (a, b) in enumerate(zip(L[:-1], L[1:])):
        ts = [0.0, 1.0]

        for f in F.values():
            q = P[f]
            x = hit(a, b, q)

            if x is not None:
                ts.append(float(np.linalg.norm(x - a) / np.linalg.norm(b - a)))

            # general position
            if len(f) == 2:
                for v in q:
                    if abs(np.linalg.norm(np.cross(b - a, v - a)) / np.linalg.norm(b - a)) < 1e-3 and -0.01 < (v - a) @ (b - a) / ((b - a) @ (b - a)) < 1.01:
                        raise Skip

            elif x is not None:
                for i in range(len(f)):
                    u, v = q[i], q[(i + 1) % len(f)]

                    if np.linalg.norm(np.cross(v - u, x - u)) / np.linalg.norm(v - u) < 1e-3:
                        raise Skip

        ts.sort()

        for t0, t1 in zip(ts[:-1], ts[1:]):
            if (t1 - t0) * np.linalg.norm(b - a) < 1e-3:
                raise Skip

            mid = a + 0.5 * (t0 + t1) * (b - a)
            cid = next((i for i, (t, c) in enumerate(cells) if i not in ghost and contains(t, c, P, mid)), -1)
            parts.append([a + t0 * (b - a), a + t1 * (b - a), lid, cid])

    # parts within a cell are joined; parts of a segment outside are not cut
    out = []

    for p in parts:
        q = out[-1] if out else None

        if q is not None and q[3] == p[3] and (p[3] >= 0 or q[2] == p[2]):
            q[1], q[2] = p[1], p[2]

        else:
            out.append(list(p))

    return out


def drop_short(parts, min_length):
    res, start = [], parts[0][0]

    for p in parts:
        d = np.linalg.norm(p[1] - start)

        if abs(d - min_length) < 1e-3:
            raise Skip

        if p[3] < 0 or d >= min_length:
            res.append([start, p[1], p[2], p[3]])
            start = p[1]

    return res


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    spec = case["spec"]
    mesh, cells = meshes.build(spec)
    struct = spec["kind"] == "structured"
    R = matrix(case["rot"])

    if spec["kind"] == "cells2d":
        L = meshes.place([A2[i] for i in case["line"]], spec["axis"])

        if "lead" in case:  # many short segments before the line enters the mesh
            k = np.arange(case["lead"], 0, -1)
            L = np.vstack((L[0] + np.column_stack((-0.05 * k, 0.02 * (k % 2), 0.0 * k)), L))

    else:
        L = np.array([A3[i] for i in case["line"]])

        if struct and 0 in spec["dims"]:
            L[:, spec["dims"].index(0)] = 0.0

    if not struct:
        mesh.points = np.array(mesh.points, float) @ R.T + case["shift"]
        L = L @ R.T + case["shift"]

    ghost = []

    if case.get("ghost") is not None:
        ghost = [case["ghost"] % mesh.n_cells]
        g = np.zeros(mesh.n_cells, dtype=np.uint8)
        g[ghost] = 32
        mesh.cell_data["vtkGhostType"] = g

    P = np.array(mesh.points, float)
    form = case["form"]

    if form == "poly" and spec["kind"] == "cells2d" and case["rot"]:
        form = "poly64"  # a line in single precision is not in a tilted plane

    if form == "poly":
        line = pv.MultipleLines(L)

    elif form == "poly64":
        line = pv.PolyData(L, lines=[len(L), *range(len(L))])

    else:
        line = pv.PolyData(L, lines=[x for i in range(len(L) - 1) for x in (2, i, i + 1)])

    if case["data"]:
        line.cell_data["a"] = 10.0 + np.arange(line.n_cells)
        line.cell_data["v"] = np.column_stack((np.arange(line.n_cells), 5 + np.arange(line.n_cells)))

    min_length = case["min_length"]
    exp = drop_short(oracle(P, cells, L, ghost, min_length), min_length or 1e-4)
    inside = [i for i, p in enumerate(exp) if p[3] >= 0]

    if inside and case["after"]:
        exp = exp[: inside[-1] + 1]

    if inside and case["before"]:
        exp = exp[inside[0] :]

    if not exp:
        raise Skip  # nothing left but parts that are too short

    kw = {}

    if min_length:
        kw["min_length"] = min_length

    if case["before"]:
        kw["ignore_points_before_entry"] = True

    if case["after"]:
        kw["ignore_points_after_exit"] = True

    out = rec.call(pvg.intersect_polyline, mesh, line, **kw)
    check(isinstance(out, pv.PolyData), "not a polydata")
    got = [np.array(out.points, float)[c] for _, c in geo.cells_of(out)]
    cid = np.asarray(out.cell_data["IntersectedCellIds"]).tolist()
    lid = np.asarray(out.cell_data["vtkOriginalCellIds"]).tolist()
    check(cid == [p[3] for p in exp], "crosses cells {} instead of {}", cid, [p[3] for p in exp])
    check(lid == [p[2] for p in exp], "segments {} instead of {}", lid, [p[2] for p in exp])
    tol = 2e-3 if case["shift"] else 1e-5

    for i, (q, p) in enumerate(zip(got, exp)):
        check(len(q) == 2 and np.abs(q - np.array(p[:2])).max() < tol, "part {} from {} to {} instead of {} to {}", i, *q, p[0], p[1])

    length = np.asarray(out.cell_data["Length"])
    check(geo.close(length, np.array([np.linalg.norm(p[1] - p[0]) for p in exp]), 2 * tol), "lengths {}", length.tolist())

    if case["data"]:
        ids = [p[2] for p in exp] if form == "lines" else [0] * len(exp)

        for k in ("a", "v"):
            check(np.array_equal(np.asarray(out.cell_data[k]), np.asarray(line.cell_data[k])[ids]), "cell data of the line: {}", np.asarray(out.cell_data[k]).tolist())

    rec.outcome(tuple(cid), tuple(lid), np.round(np.array(got), 2))
