"""
Meshes, lines and builders of many elements: sizes around the thresholds that small cases cannot reach (127, 255 and 1000 elements, limits of recursions,
of strips and of small integer types). Regular inputs with results in closed form; every check runs those of its own functions.
"""

from __future__ import annotations

import numpy as np
import pyvista as pv

from . import geo
from .core import check

SIZES = (130, 300, 1100)
BUILDERS = {"C08", "C09", "C10", "C13"}


def strip(n, axis=2):
    """n quads in a row."""
    k = np.arange(n)
    p = np.zeros((2 * (n + 1), 3))
    p[: n + 1, 0] = p[n + 1 :, 0] = np.arange(n + 1)
    p[n + 1 :, 1] = 1.0

    return pv.UnstructuredGrid({int(pv.CellType.QUAD): np.column_stack((k, k + 1, k + n + 2, k + n + 1))}, np.roll(p, axis - 2, axis=1))


def segments(p):
    k = np.arange(len(p) - 1)

    return pv.PolyData(p, lines=np.column_stack((np.full(len(k), 2), k, k + 1)).ravel())


def row(n):
    p = np.zeros((n, 3))
    p[:, 0] = np.arange(n)
    p[:, 1] = np.arange(n) % 3

    return p


def ring(n, r=1.0):
    t = 2.0 * np.pi * np.arange(n) / n

    return np.column_stack((r * np.cos(t), r * np.sin(t), np.zeros(n)))


def total(mesh):
    return float(geo.cell_sizes(mesh).sum())


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(b))


def names(mesh):
    inv = {v: k for k, v in mesh.user_dict["CellGroup"].items()}
    check(len(inv) == len(mesh.user_dict["CellGroup"]), "groups share a number")

    return [inv[int(v)] for v in np.asarray(mesh.cell_data["CellGroup"])]


# ------------------------------------------------------------------ one function per kind: (pvg, n, rec)


def c01_levels(pvg, n, rec):
    for method in (None, "log", "log_r"):
        m = rec.call(pvg.StructuredSurface, [[0, 0, 0], [1, 0, 0]], [[0, 1, 0], [1, 1, 0]], "xy", n, method)
        k = np.arange(n + 1) / n
        t = {None: k, "log": 1.0 - np.log10(1.0 + 9.0 * k[::-1]), "log_r": np.log10(1.0 + 9.0 * k)}[method]
        check(m.n_points == 2 * (n + 1) and np.abs(np.unique(np.round(m.points[:, 1], 9)) - np.round(t, 9)).max() < 1e-8, "positions of {} subdivisions ({})", n, method)


def c03_layers(pvg, n, rec):
    a = strip(300)
    a.cell_data["c"] = np.arange(300)
    m = rec.call(pvg.Volume, a, a.translate((0, 0, 2.0)), n // 40)
    check(m.n_cells == 300 * (n // 40) and near(total(m), 600.0), "{} cells of volume {}", m.n_cells, total(m))
    c = np.asarray(m.cell_centers().points)
    check(np.array_equal(np.asarray(m.cell_data["c"]), np.floor(c[:, 0]).astype(int)), "cell data misplaced")


def c04_rings(pvg, n, rec):
    f = n / 2.0 * np.sin(2.0 * np.pi / n)
    m = rec.call(pvg.Annulus, 1.0, 2.0, 2, n)
    check(m.n_cells == 2 * n and near(total(m), 3.0 * f, 1e-5), "annulus: {} cells of area {}", m.n_cells, total(m))
    m = rec.call(pvg.Circle, 2.0, n)
    check(m.n_cells == n and near(total(m), 4.0 * f, 1e-5), "circle: {} cells of area {}", m.n_cells, total(m))


def c05_polygon(pvg, n, rec):
    m = rec.call(pvg.Polygon, ring(n, 2.0))
    check(near(total(m), 4.0 * n / 2.0 * np.sin(2.0 * np.pi / n), 1e-5) and m.n_points == n, "{} points, area {}", m.n_points, total(m))


def c06_regular(pvg, n, rec):
    m = rec.call(pvg.RegularLine, [[0, 0, 0], [1, 0, 0], [1, 2, 0], [4, 2, 0]], n)
    d = np.arange(n + 1) * 6.0 / n
    ref = np.array([[x, 0, 0] if x <= 1 else [1, x - 1, 0] if x <= 3 else [x - 2, 2, 0] for x in d])
    check(np.abs(np.asarray(m.points) - ref).max() < 1e-4, "points of the line")


def c08_items(pvg, n, rec):
    e = rec.call(pvg.MeshExtrude, strip(3))

    for _ in range(n):
        rec.call(e.add, (0.0, 0.0, 0.5))

    m = rec.call(e.generate_mesh)
    check(m.n_cells == 3 * n and m.n_points == 8 * (n + 1) and near(total(m), 1.5 * n), "{} cells, {} points, volume {}", m.n_cells, m.n_points, total(m))


def c09_groups(pvg, n, rec):
    m = pvg.MeshMerge()
    e = pvg.MeshExtrude(strip(2))
    s = pvg.MeshStack2D(segments(row(3) * [1, 0, 0]))
    rec.call(s.add, 0.0)

    for i in range(n):
        rec.call(m.add, strip(1).translate((i, 0, 0)), group=f"g{i}")
        rec.call(e.add, (0.0, 0.0, 1.0), group=f"g{i}")
        rec.call(s.add, 1.0, group=f"g{i}")

    x = rec.call(m.generate_mesh)
    check(names(x) == [f"g{i:.0f}" for i in np.floor(x.cell_centers().points[:, 0])], "groups of {} merged meshes", n)

    for b in (e, s):
        x = rec.call(b.generate_mesh)
        check(names(x) == [f"g{i:.0f}" for i in np.floor(x.cell_centers().points[:, 2])], "groups of {} items", n)

    # one item whose base cells have as many groups
    e = pvg.MeshExtrude(strip(n))
    rec.call(e.add, (0.0, 0.0, 1.0), 2, group={f"b{i}": [i] for i in range(n)})
    x = rec.call(e.generate_mesh)
    check(names(x) == [f"b{i:.0f}" for i in np.floor(x.cell_centers().points[:, 0])], "groups of {} base cells", n)


def c10_ids(pvg, n, rec):
    s = pvg.MeshStack3D(strip(n))
    e = pvg.MeshExtrude(strip(n))
    rec.call(s.add, 0.0)

    for k in range(3):
        rec.call(s.add, float(n), n)
        rec.call(e.add, (0.0, 0.0, float(n)), n)

    for b, key in ((s, "StackItem"), (e, "ExtrudeItem")):
        x = rec.call(b.generate_mesh)
        c = np.floor(np.asarray(x.cell_centers().points)).astype(int)
        check(np.array_equal(np.asarray(x.cell_data["ColumnId"]), c[:, 0]), "ColumnId of {} columns", n)
        check(np.array_equal(np.asarray(x.cell_data["LayerId"]), c[:, 2]), "LayerId of {} layers", 3 * n)
        check(np.array_equal(np.asarray(x.cell_data[key]), c[:, 2] // n), "{}", key)


def c13_many(pvg, n, rec):
    g = [pv.RectilinearGrid([i, i + 1.0], [0.0, 1.0, 2.0], [0.0, 1.0]).cast_to_structured_grid() for i in range(n)]
    m = pvg.MeshMerge()

    for i, x in enumerate(g):
        x.cell_data["i"] = np.full(2, i)
        rec.call(m.add, x)

    for x in (rec.call(pvg.merge, g, axis=0), rec.call(m.generate_mesh)):
        check(x.n_cells == 2 * n and x.n_points == 6 * (n + 1), "{} cells and {} points from {} grids", x.n_cells, x.n_points, n)
        check(np.array_equal(np.asarray(x.cell_data["i"]), np.floor(x.cell_centers().points[:, 0]).astype(int)), "data of {} grids", n)


def c14_seeds(pvg, n, rec):
    k = n // 10
    bg = pv.ImageData(dimensions=(2, 2, 1), spacing=(k, 10, 1)).cast_to_structured_grid()
    x, y = np.meshgrid(np.arange(k) + 0.5, np.arange(10) + 0.5)
    p = np.column_stack((x.ravel(), y.ravel(), np.zeros(x.size)))
    p = p[np.abs(p - [k / 2, 5, 0]).max(axis=1) > 0.6]  # room for the seed of the background
    v = rec.call(pvg.VoronoiMesh2D, bg)
    rec.call(v.add, p)
    m = rec.call(v.generate_mesh)
    check(m.n_cells == len(p) + 1 and near(total(m), 10.0 * k), "{} cells of area {} from {} seeds", m.n_cells, total(m), len(p) + 1)
    s = np.column_stack((m.cell_data["X"], m.cell_data["Y"], m.cell_data["Z"]))
    check(len(np.unique(np.round(s, 6), axis=0)) == m.n_cells, "seeds used twice")
    d = np.abs(s - np.asarray(m.cell_centers().points)).max(axis=1)
    far = np.abs(s - [k / 2, 5, 0]).max(axis=1) > 2.5
    check(d[far].max() < 1e-6, "cells far from the seed of the background are not the squares around their seeds")


def c16_neighbors(pvg, n, rec):
    for mesh in (strip(n), pv.ImageData(dimensions=(n + 1, 2, 1))):
        g = rec.call(pvg.extract_cell_geometry, mesh)
        check(g.n_cells == 3 * n + 1, "{} edges of {} quads", g.n_cells, n)
        nb = rec.call(pvg.get_neighborhood, mesh)
        check([sorted(int(j) for j in x) for x in nb] == [[j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)], "neighbours of {} quads", n)

    c = rec.call(pvg.get_connectivity, strip(n))
    check(c.n_lines == n - 1 and near(total(c), n - 1.0), "connectivity of {} quads: {} lines", n, c.n_lines)


def c17_cells(pvg, n, rec):
    mesh = strip(n)
    mesh.cell_data["i"] = np.arange(n)
    ids = np.arange(0, n, 3)
    m = rec.call(pvg.extract_cells, mesh, ids)
    check(np.array_equal(np.asarray(m.cell_data["i"]), ids) and np.array_equal(np.floor(m.cell_centers().points[:, 0]), ids), "cells extracted out of {}", n)


def c18_fuse(pvg, n, rec):
    a, b = np.arange(n // 2 + 40), np.arange(n // 2 + 40, n)
    mesh = strip(n)
    mesh.cell_data["i"] = np.arange(n)
    m = rec.call(pvg.fuse_cells, mesh, [a, b])
    sizes = geo.cell_sizes(m)
    check(m.n_cells == 2 and near(sizes[0], len(a)) and near(sizes[1], len(b)), "{} cells of size {} instead of {} and {}", m.n_cells, sizes, len(a), len(b))
    check(np.asarray(m.cell_data["i"]).tolist() == [0, b[0]], "data {}", np.asarray(m.cell_data["i"]))


def c21_crossed(pvg, n, rec):
    m = rec.call(pvg.ray_cast, strip(n), (-0.5, 0.25, 0.0), (n + 0.5, 0.75, 0.0))
    p = np.asarray(m.cell_data["IntersectionPoints"])
    ref = np.arange(n + 1)
    check(len(p) == n + 1, "{} edges crossed instead of {}", len(p), n + 1)
    p = p[np.argsort(p[:, 0])]
    check(np.abs(p[:, 0] - ref).max() < 1e-3 and np.abs(p[:, 1] - 0.25 - 0.5 * (ref + 0.5) / (n + 1)).max() < 1e-3, "points crossed")


def c22_lines(pvg, n, rec):
    k = n // 5
    lines = [pv.PolyData(row(6) + [6.0 * i, 0, 0], lines=[6, *range(6)]) for i in range(k)]

    for i, x in enumerate(lines):
        x.cell_data["i"] = [i]

    m = rec.call(pvg.merge_lines, lines, as_lines=False)
    check(m.n_lines == k and np.asarray(m.cell_data["i"]).tolist() == list(range(k)), "{} lines from {}", m.n_lines, k)
    s = rec.call(pvg.split_lines, m, as_lines=False)
    check(len(s) == k and all(np.abs(np.asarray(a.points) - b.points).max() < 1e-5 for a, b in zip(s, lines)), "{} parts of {} lines", len(s), k)
    p = row(n)
    s = rec.call(pvg.split_lines, pv.PolyData(p, lines=[n, *range(n)]))
    check(len(s) == 1 and s[0].n_lines == n - 1 and s[0].n_points == n, "a line of {} points", n)


def c23_pairs(pvg, n, rec):
    p = np.repeat(row(n) * [3.0, 0, 0], 2, axis=0)
    p[::2, 1], p[1::2, 1] = -0.1, 0.1
    q = p + [0.0, 2.0, 0.0]
    k = 2 * np.arange(n - 1)
    faces = np.column_stack((np.full(n - 1, 4), k, k + 2, k + 2 + 2 * n, k + 2 * n)).ravel()
    m = rec.call(pvg.average_points, pv.PolyData(np.vstack((p, q)), faces=faces), 0.25)
    check(m.n_points == 2 * n and m.n_cells == n - 1 and near(total(m), 6.0 * (n - 1), 1e-5), "{} points, {} faces", m.n_points, m.n_cells)


def c25_offset(pvg, n, rec):
    for d in (0.25, -0.25):
        m = rec.call(pvg.offset_polygon, ring(n, 2.0), d)
        r = np.linalg.norm(m.points, axis=1)
        check(m.n_points == n and np.abs(np.abs(r - 2.0) * np.cos(np.pi / n) - 0.25).max() < 1e-4 and len(np.unique(np.sign(r - 2.0))) == 1, "polygon of {} points moved by {}", n, d)


def c27_labels(pvg, n, rec):
    mesh = strip(n)
    mesh.cell_data["g"] = np.arange(n)
    mesh.user_dict["g"] = {f"l{i}": i for i in range(n)}
    m = rec.call(pvg.remap_categorical_data, mesh, "g", {(f"l{i}" if i % 2 else i): n - 1 - i for i in range(n)}, preference="cell")
    check(np.array_equal(np.asarray(m.cell_data["g"]), n - 1 - np.arange(n)), "values of {} labels", n)
    check(dict(m.user_dict["g"]) == {f"l{i}": n - 1 - i for i in range(n)}, "{} labels", n)


def c28_quads(pvg, n, rec):
    m = rec.call(pvg.quadraticize, strip(n))
    c = m.cells.reshape(n, 9)[:, 1:]
    p = np.asarray(m.points)[c]
    check(np.abs(p[:, 4:] - 0.5 * (p[:, :4] + p[:, [1, 2, 3, 0]])).max() < 1e-3 and np.array_equal(np.floor(p[:, 0, 0]), np.arange(n)), "nodes of {} quads", n)


def c29_centers(pvg, n, rec):
    for mesh in (strip(n), pv.ImageData(dimensions=(n + 1, 2, 1))):
        c = rec.call(pvg.get_cell_centers, mesh)
        check(np.abs(c[:, 0] - np.arange(n) - 0.5).max() < 1e-3 and len(c) == n, "centers of {} cells", n)

    k = rec.call(pvg.get_cell_connectivity, strip(n))
    check([list(map(int, x)) for x in k] == [[i, i + 1, i + n + 2, i + n + 1] for i in range(n)], "connectivity of {} cells", n)
    mesh = strip(n)
    mesh.cell_data["CellGroup"] = np.arange(n)[::-1].copy()
    mesh.user_dict["CellGroup"] = {f"l{i}": i for i in range(n)}
    check([str(x) for x in rec.call(pvg.get_cell_group, mesh)] == [f"l{n - 1 - i}" for i in range(n)], "groups of {} cells", n)


KINDS = {}

for _k, _f in list(globals().items()):
    if _k[0] == "c" and _k[1:3].isdigit():
        KINDS.setdefault(_k[:3].upper(), {})[_k] = _f


def spaces(mod):
    def g(ctx):
        return dict(large_kind=ctx.choose("kind", sorted(KINDS[mod.ID]), free=True), n=ctx.choose("n", SIZES[:2] if mod.ID in BUILDERS else SIZES, free=True))

    return [("many", g, None)] if mod.ID in KINDS else []


def run(mod, case, rec):
    import pvgridder as pvg

    rec.state(mod.ID, case["large_kind"], case["n"])
    KINDS[mod.ID][case["large_kind"]](pvg, case["n"], rec)
    rec.outcome("many")
