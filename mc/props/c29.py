"""
Explicit enumeration of all small meshes (lattices of every combination of cell codes, structured meshes with every ghost mask, one mesh per VTK cell type, families of prismatic polyhedra)
with every option of the query functions. The answers are compared with the lists of cells the mesh was built from, with VTK's own tables of dimensions,
with VTK's center of each cell taken on its own and with exact centroids of polyhedra.
"""

import numpy as np
import pyvista as pv
import vtk

from .. import geo, meshes
from ..core import check

ID = "C29"
PROPERTY = dict(
    title="Mesh queries (connectivity, centers, groups, dimension) are exact",
    statement=(
        "get_cell_connectivity returns for every cell, in order, its point ids (its faces for polyhedra, nothing for empty cells) and its flattened form rebuilds the same mesh; get_dimension is the largest VTK "
        "dimension of the cells (structured meshes: of their axes) for every cell type. get_cell_centers returns one center per cell, ghost or not, NaN for empty cells, "
        "and for polyhedra the bounding box center, the average of the points or the exact centroid as asked, leaving the other cells alone. "
        "get_cell_group returns the name (the number, if there are no names) of the group of every cell under the given key and None without such data."
    ),
    quantifier=dict(over=["inputs"], text="all mesh and cell types, mixes with empty cells and polyhedra, ghost masks and options"),
    why_tests_cant="Tests compare checksums for a few meshes; an offset error in a mixed mesh shows only for particular orders of cell types.",
    files=["pvgridder/utils/_properties.py"],
    mechanism=[
        dict(name="cells and polyhedron faces", where="utils/_properties.py get_cell_connectivity"),
        dict(name="centers", where="utils/_properties.py get_cell_centers"),
        dict(name="dimension table", where="utils/_properties.py get_dimension, _dimension_map"),
    ],
    state=["cells of the mesh", "ghost cells"],
    level_note="All pairs of cell codes, 2x2 lattices with up to 2 (quick) or all (thorough) changes, all ghost masks of up to 6 cells, all cell types VTK can instantiate.",
)
ASSUMPTIONS = ["VTK 9.4: without a method polyhedra have the center of their bounding box"]

C2 = "qxtuogelnr-"
C3 = "hvwpkyeqln-"


def gen_mix(kind, dims_list, codes, free):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        c = "".join(ctx.choose(f"c{i}", codes, free=free) for i in range(int(np.prod(dims))))

        if not set(c) - set("e-"):
            return None

        spec = dict(kind=kind, dims=dims, cells=c)

        if kind == "cells2d":
            spec["axis"] = ctx.choose("axis", (2, 1, 0))

            if not set(c) & set("ex") and "".join(sorted(c, key=lambda q: {"n": 0, "l": 1}.get(q, 2))) == c:
                spec["type"] = ctx.choose("type", ("ug", "poly"))

        return dict(mesh=spec, groups=ctx.choose("groups", ("named", "plain", "other", "none")))

    return g


def gen_struct(dims_list):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        typ = ctx.choose("type", ("struct", "image", "rect"), free=True)
        n = int(np.prod([max(1, d) for d in dims]))
        ghost = [int(ctx.flag(f"g{i}", free=True)) for i in range(n)]

        return dict(mesh=dict(kind="structured", dims=dims, type=typ), ghost=ghost, groups="named")

    return g


TYPES = [t for t in range(0, 82) if vtk.vtkGenericCell.InstantiateCell(t) is not None and t not in (0, 42)]
SHAPES = {
    "tri": [(0, 0), (2, 0), (0, 1)],
    "quad": [(0, 0), (2, 0), (3, 1), (0, 1)],
    "penta": [(0, 0), (2, 0), (3, 1), (1, 3), (0, 1)],
    "ell": [(0, 0), (3, 0), (3, 1), (1, 1), (1, 4), (0, 4)],
}


def gen_poly(ctx):
    n = ctx.choose("n", (1, 2), free=True)
    cells = []

    for i in range(n):
        s = ctx.choose(f"shape{i}", sorted(SHAPES), free=True)
        kind = ctx.choose(f"kind{i}", ("prism", "shear", "cone", "hex", "wedge", "empty"), free=True)

        if kind in ("hex", "wedge", "empty") and s != "ell":
            return None

        start = 0 if kind in ("hex", "wedge", "empty") else ctx.choose(f"start{i}", (0, 1, 2), free=n == 1)
        cells.append([s, kind, start])

    return dict(polyhedra=cells)


def gen_type(ctx):
    return dict(celltype=ctx.choose("type", TYPES, free=True), extra=ctx.choose("extra", (None, 1, 3, 9, 12), free=True))


def spaces(tier):
    q = tier == "quick"

    return [
        ("pairs2d", gen_mix("cells2d", [[1, 1], [2, 1]], C2, True), 1 if q else 2),
        ("mix2d", gen_mix("cells2d", [[2, 2]] if q else [[2, 2], [3, 2]], C2, False), 2 if q else 4),
        ("pairs3d", gen_mix("cells3d", [[1, 1, 1], [2, 1, 1]] if q else [[1, 1, 1], [2, 1, 1], [3, 1, 1]], C3, True), 1),
        ("mix3d", gen_mix("cells3d", [[2, 2, 1]], C3, False), 2 if q else 4),
        ("structured", gen_struct([[3, 0, 0], [2, 1, 0], [1, 0, 2], [0, 2, 2], [2, 1, 2]] + ([] if q else [[0, 0, 5], [3, 2, 0], [2, 2, 2]])), None),
        ("types", gen_type, None),
        ("polyhedra", gen_poly, 1 if q else None),
    ]


def centroid(pts, faces):
    """Exact centroid of a polyhedron with planar, consistently oriented faces."""
    v, m = 0.0, np.zeros(3)
    o = pts[faces[0][0]] * 0.0 + np.array([0.1, 0.2, 0.3])

    for f in faces:
        for a, b in zip(f[1:], f[2:]):
            p = pts[[f[0], a, b]] - o
            d = np.linalg.det(p) / 6.0
            v += d
            m += d * p.sum(axis=0) / 4.0

    return o + m / v


def vtk_center(pts, t, c):
    """Center of a cell that is alone in its mesh."""
    m = meshes.ugrid(pts, [(t, c)])
    f = vtk.vtkCellCenters()
    f.SetInputData(m)
    f.Update()

    return np.array(f.GetOutput().GetPoint(0))


def polyhedron(shape, kind, start, dx):
    p = np.array(SHAPES[shape], float)
    n = len(p)
    bot = np.column_stack((p, np.zeros(n)))
    shift = {"prism": (0, 0, 2), "shear": (1.5, 0.5, 2), "cone": (0, 0, 2)}[kind]
    c = p[:1]
    top = np.column_stack((p if kind != "cone" else c + 0.25 * (p - c), np.zeros(n))) + shift
    pts = np.vstack((bot, top)) + [dx, 0, 0]
    faces = [list(range(n))[::-1], list(range(n, 2 * n))]
    faces += [[i, (i + 1) % n, n + (i + 1) % n, n + i] for i in range(n)]
    faces = [f[start:] + f[:start] for f in faces[start:] + faces[:start]]

    return pts, faces


def flat_faces(c):
    return [[int(x) for x in f] for f in c] if len(c) and np.ndim(c[0]) == 1 else [int(x) for x in c]


def connectivity(pvg, rec, mesh, cells, dead):
    out = rec.call(pvg.get_cell_connectivity, mesh)
    check(isinstance(out, tuple) and len(out) == len(cells), "connectivity of {} cells instead of {}", len(out), len(cells))

    for i, (a, (t, c)) in enumerate(zip(out, cells)):
        exp = [] if dead[i] else flat_faces(c)
        check(flat_faces(a) == exp, "connectivity of cell {} is {} instead of {}", i, flat_faces(a), exp)

    flat = rec.call(pvg.get_cell_connectivity, mesh, flatten=True)
    check(isinstance(flat, np.ndarray) and flat.ndim == 1, "flattened connectivity is not an array")
    types = np.array([0 if d else t for (t, _), d in zip(cells, dead)], dtype=np.uint8)
    m = pv.UnstructuredGrid(flat, types, np.array(mesh.points))
    got = geo.cells_of(m)
    check(len(got) == len(cells), "flattened connectivity has {} cells", len(got))

    for i, ((t, a), (t0, c)) in enumerate(zip(got, cells)):
        check(flat_faces(a) == ([] if dead[i] else flat_faces(c)), "flattened connectivity of cell {}", i)


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "celltype" in case:
        t = case["celltype"]
        cell = vtk.vtkGenericCell.InstantiateCell(t)
        n = cell.GetNumberOfPoints() or {2: 3, 4: 3, 6: 4, 7: 5, 36: 6, 41: 8}.get(t, 0)

        if not n:
            from ..core import Skip

            raise Skip

        pts = np.array([(i % 3, (i // 3) % 3, i // 9) for i in range(max(n, 8))], float)
        cells = [(t, list(range(n)))]

        if case["extra"] is not None:
            cells.append((case["extra"], list(range({1: 1, 3: 2, 9: 4, 12: 8}[case["extra"]]))))

        mesh = meshes.ugrid(pts, cells)
        d = max(vtk.vtkCellTypes.GetDimension(q) for q, _ in cells)
        got = rec.call(pvg.get_dimension, mesh)
        check(got == d, "dimension of a mesh with a cell of type {} is {} instead of {}", t, got, d)
        connectivity(pvg, rec, mesh, cells, [False] * len(cells))
        rec.outcome("type", t, d)
        return

    if "polyhedra" in case:
        pts, cells = [], []

        for i, (s, kind, start) in enumerate(case["polyhedra"]):
            off = len(pts)

            if kind == "empty":
                cells.append((0, []))
                continue

            if kind in ("hex", "wedge"):
                t = 12 if kind == "hex" else 13
                q = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], float) * [2, 1, 3] + [5.0 * i, 0, 0]
                q = q if kind == "hex" else q[[0, 3, 1, 4, 7, 5]]
                pts += q.tolist()
                cells.append((t, [off + j for j in range(len(q))]))
                continue

            q, faces = polyhedron(s, kind, start, 5.0 * i)
            pts += q.tolist()
            cells.append((42, [[off + j for j in f] for f in faces]))

        if not pts:
            return

        mesh = meshes.ugrid(pts, cells)
        case = dict(mesh=None, groups="none")

    else:
        mesh, cells = meshes.build(case["mesh"])

    pts = np.array(mesh.points, float)
    ghost = case.get("ghost") or [0] * len(cells)
    dead = [bool(g) or t == 0 for g, (t, _) in zip(ghost, cells)]
    struct = bool(case["mesh"]) and case["mesh"]["kind"] == "structured"

    if any(ghost):
        mesh.cell_data["vtkGhostType"] = np.array([32 * g for g in ghost], dtype=np.uint8)

    # groups
    names = {"A": 0, "B": 3}
    num = np.array([0 if i % 2 else 3 for i in range(len(cells))])
    g = case["groups"]
    key = "Zone" if g == "other" else "CellGroup"

    if g != "none":
        mesh.cell_data[key] = num

    if g in ("named", "other"):
        mesh.user_dict[key] = dict(names)

    got = rec.call(pvg.get_cell_group, mesh, key) if g == "other" else rec.call(pvg.get_cell_group, mesh)

    if g == "none":
        check(got is None, "group without group data")

    else:
        exp = list(num) if g == "plain" else ["A" if x == 0 else "B" for x in num]
        check(got is not None and list(got) == exp, "groups {} instead of {}", None if got is None else list(got), exp)

    if g != "plain":
        check(pvg.get_cell_group(mesh, "nothing") is None, "group of a key without data")

    # dimension
    d = sum(n > 1 for n in mesh.dimensions) if struct else max(geo.DIM[t] for t, _ in cells)
    got = rec.call(pvg.get_dimension, mesh)
    check(got == d, "dimension {} instead of {}", got, d)

    # connectivity (the vertex order of pixels and voxels of implicit grids is VTK's)
    if not (struct and (case["mesh"]["type"] in ("image", "rect") or any(ghost))):
        connectivity(pvg, rec, mesh, cells, dead)

    else:
        out = rec.call(pvg.get_cell_connectivity, mesh)
        check(len(out) == len(cells), "connectivity of {} cells", len(out))

        for i, (a, (t, c)) in enumerate(zip(out, cells)):
            # VTK keeps the corners of ghost cells of structured meshes
            check(sorted(int(x) for x in a) == sorted(c) or (dead[i] and len(a) == 0), "connectivity of cell {}", i)

    # centers
    for method in (None, "box", "geometric", "tetra"):
        if method and not any(t == 42 for t, _ in cells):
            continue

        got = rec.call(pvg.get_cell_centers, mesh, method) if method else rec.call(pvg.get_cell_centers, mesh)
        check(got.shape == (len(cells), 3), "{} centers for {} cells", got.shape, len(cells))

        for i, (t, c) in enumerate(cells):
            if t == 0:
                check(np.isnan(got[i]).all(), "empty cell {} has a center", i)
                continue

            if t == 42:
                p = pts[sorted({q for f in c for q in f})]
                exp = {None: 0.5 * (p.min(axis=0) + p.max(axis=0)), "geometric": p.mean(axis=0)}.get(method)
                exp = centroid(pts, c) if method == "tetra" else 0.5 * (p.min(axis=0) + p.max(axis=0)) if exp is None else exp

            elif struct:
                exp = pts[c].mean(axis=0)

            else:
                exp = vtk_center(pts, t, c)

            check(geo.close(got[i], exp, 1e-6), "center of cell {} (method {}) is {} instead of {}", i, method, got[i], exp)

    if any(ghost):
        check(np.array_equal(mesh.cell_data["vtkGhostType"], [32 * g for g in ghost]), "ghost cells of the mesh modified")

    rec.outcome(str(case["mesh"]), got)
