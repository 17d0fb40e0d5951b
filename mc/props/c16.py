"""
Explicit enumeration of all small meshes (every assignment of cell types, empty cells and missing cells to a lattice, every ghost mask and zero-thickness layer of a structured grid).
The oracle lists the edges or faces of every cell from its own tables and groups them by their points; the real extract_cell_geometry, get_neighborhood and get_connectivity
have to agree with it face by face, owner by owner.
"""

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import check

ID = "C16"
PROPERTY = dict(
    title="Cell geometry, neighbourhood and connectivity agree with the cells",
    statement=(
        "extract_cell_geometry returns each distinct edge (meshes of dimension 1 and 2) or face (dimension 3) of the cells of a mesh exactly once, with the points of the mesh, and vtkOriginalCellIds "
        "lists exactly the cells that own it (padded with -1), whatever the mesh type and the mix of cell types; with remove_ghost_cells, empty and ghost cells and edges or faces of zero size do not count. "
        "get_neighborhood lists for every cell the other owners of its edges or faces and get_connectivity joins the (given) cell centers of exactly these pairs, for every mesh including "
        "one whose cells share nothing or whose edges belong to more than two cells."
    ),
    quantifier=dict(over=["inputs"], text="all mesh types, cell types, empty and ghost cells, collapsed layers and ways cells touch each other"),
    why_tests_cant="Tests check sums of points on a few example meshes; a wrong table entry, owner or padding shows only for particular cell types and adjacency patterns.",
    files=["pvgridder/utils/_misc.py", "pvgridder/utils/_connectivity.py"],
    mechanism=[
        dict(name="edge and face tables", where="utils/_misc.py extract_cell_geometry, _celltype_to_faces"),
        dict(name="pairs of owners", where="utils/_connectivity.py get_neighborhood, get_connectivity"),
    ],
    state=["cells of the mesh", "ghost cells"],
    level_note="All 2x1 lattices of nine cell codes, 2x2 and 3D lattices with up to 2 (quick) or 3-4 (thorough) changed cells, all ghost masks of up to 6 (8) cells.",
)
ASSUMPTIONS = ["ghost cells are flagged by vtkGhostType on structured meshes and are empty cells on unstructured ones (the convention of the package)"]

# centers that are not the mean of the corners (see C29)
NO_MEAN = {int(pv.CellType[k]) for k in ("POLYGON", "PYRAMID", "POLY_LINE")}
C2 = "qxtuogelr-"
C3 = "hvwpkye-"


def gen2d(dims_list, free):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        codes = "".join(ctx.choose(f"c{i}", C2, free=free) for i in range(dims[0] * dims[1]))

        if not set(codes) & set("qxtuogr"):
            return None

        remove = ctx.flag("keep_ghosts", free=True)
        axis = ctx.choose("axis", (2, 1, 0))
        typ = "ug"

        if not set(codes) & set("exl"):
            typ = ctx.choose("type", ("ug", "poly"))

        return dict(mesh=dict(kind="cells2d", dims=dims, cells=codes, axis=axis, type=typ), remove=not remove)

    return g


def gen3d(dims_list, free):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        codes = "".join(ctx.choose(f"c{i}", C3, free=free) for i in range(dims[0] * dims[1] * dims[2]))

        if not set(codes) & set("hvwpky"):
            return None

        return dict(mesh=dict(kind="cells3d", dims=dims, cells=codes), remove=not ctx.flag("keep_ghosts", free=True))

    return g


def gen_struct(dims_list):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        typ = ctx.choose("type", ("struct", "image", "rect"), free=True)
        n = int(np.prod([max(1, d) for d in dims]))
        ghost = [int(ctx.flag(f"g{i}", free=True)) for i in range(n)]

        if all(ghost):
            return None

        flat = []

        if typ == "struct":
            opts = [None] + [(a, i) for a in range(3) for i in range(dims[a])]
            f = ctx.choose("flat", opts, free=True)
            flat = [list(f)] if f else []

            # something of non-zero size has to be left
            if f and dims[f[0]] == 1 and sum(d > 0 for d in dims) == 1:
                return None

        keep = ctx.flag("keep_ghosts", free=True)

        return dict(mesh=dict(kind="structured", dims=dims, type=typ, flat=flat), ghost=ghost, remove=not keep)

    return g


def gen_other(n_max):
    def g(ctx):
        k = ctx.choose("kind", ("fan", "lines", "bad2d", "bad3d"), free=True)
        remove = not ctx.flag("keep_ghosts", free=True)

        if k == "fan":
            return dict(mesh=dict(kind="fan", n=ctx.choose("n", list(range(1, n_max)), free=True)), remove=remove)

        if k == "lines":
            opts = [(0, 1), (1, 2), (2, 1), (0, 1, 2), (2, 3, 4), (1, 2, 3), (0, 3)]
            n = ctx.choose("n", (1, 2, 3), free=True)
            cells = [ctx.choose(f"l{i}", opts, free=True) for i in range(n)]

            return dict(mesh=dict(kind="lines", cells=[list(c) for c in cells], type=ctx.choose("type", ("ug", "poly"), free=True)), remove=remove)

        a = ctx.choose("a", "qx" if k == "bad2d" else "hp", free=True)
        b = ctx.choose("b", "n" if k == "bad2d" else "nlq", free=True)
        s = ctx.choose("order", (a + b, b + a), free=True)

        return dict(mesh=dict(kind="cells2d" if k == "bad2d" else "cells3d", dims=[2, 1] if k == "bad2d" else [2, 1, 1], cells=s), remove=remove, bad=True)

    return g


def scaled(g, values):
    """The meshes of another space at other scales, for which nothing but the coordinates may change."""

    def h(ctx):
        case = g(ctx)
        scale = ctx.choose("scale", values, free=True)

        if case is None:
            return None

        case["mesh"] = dict(case["mesh"], scale=scale)

        return case

    return h


def spaces(tier):
    if tier == "quick":
        return [
            ("scales2d", scaled(gen2d([[1, 1], [2, 1]], False), (1e-5, 1e5)), 2),
            ("scales3d", scaled(gen3d([[1, 1, 1], [2, 1, 1]], False), (1e-5, 1e5)), 2),
            ("scales-structured", scaled(gen_struct([[2, 0, 0], [2, 1, 0], [2, 1, 1]]), (1e-5, 1e5)), None),
            ("surfaces", gen2d([[1, 1], [2, 1]], True), 1),
            ("surfaces4", gen2d([[2, 2]], False), 2),
            ("volumes", gen3d([[1, 1, 1], [2, 1, 1], [1, 1, 2]], True), None),
            ("volumes4", gen3d([[2, 2, 1]], False), 2),
            ("structured", gen_struct([[1, 0, 0], [3, 0, 0], [1, 1, 0], [3, 1, 0], [2, 0, 2], [0, 2, 2], [1, 1, 1], [2, 1, 2]]), None),
            ("other", gen_other(6), None),
        ]

    return [
        ("scales2d", scaled(gen2d([[1, 1], [2, 1]], True), (1e-7, 1e-5, 1e5)), 1),
        ("scales3d", scaled(gen3d([[1, 1, 1], [2, 1, 1]], True), (1e-7, 1e-5, 1e5)), None),
        ("scales-structured", scaled(gen_struct([[2, 0, 0], [2, 1, 0], [2, 1, 1]]), (1e-7, 1e-5, 1e5)), None),
        ("surfaces", gen2d([[1, 1], [2, 1], [1, 2], [3, 1]], True), 2),
        ("surfaces4", gen2d([[2, 2]], True), 1),
        ("surfaces6", gen2d([[3, 2]], False), 3),
        ("volumes", gen3d([[1, 1, 1], [2, 1, 1], [1, 1, 2], [3, 1, 1], [2, 2, 1]], True), None),
        ("volumes8", gen3d([[2, 2, 2]], False), 3),
        ("structured", gen_struct([[1, 0, 0], [3, 0, 0], [1, 1, 0], [3, 1, 0], [3, 2, 0], [2, 0, 2], [0, 2, 3], [1, 1, 1], [2, 1, 2], [3, 1, 2], [2, 2, 2]]), None),
        ("other", gen_other(8), None),
    ]


def expected(pts, cells, dead, remove):
    """Owners of every distinct edge or face, in order of appearance."""
    out, first = {}, {}
    span = np.ptp(pts, axis=0).max()

    for i, (t, c) in enumerate(cells):
        if remove and dead[i]:
            continue

        for f in meshes.boundary(t, c):
            if remove:
                p = pts[f]
                size = np.linalg.norm(p[1] - p[0]) if len(f) == 2 else np.linalg.norm(geo.area_vector(p))

                if size < 1e-6 * span ** (1 if len(f) == 2 else 2):
                    continue

            k = frozenset(f)
            out.setdefault(k, []).append(i)
            first.setdefault(k, f)

    return out, first


def run(case, rec):
    import pvgridder as pvg

    mesh, cells = meshes.build(case["mesh"])
    remove = case["remove"]
    pts = np.array(mesh.points)
    dead = [t == int(pv.CellType.EMPTY_CELL) for t, _ in cells]

    if case.get("bad"):
        rec.raises(NotImplementedError, pvg.extract_cell_geometry, mesh, remove)
        rec.state(str(case))
        return

    if case.get("ghost"):
        dead = [bool(g) for g in case["ghost"]]

        if any(dead):
            mesh.cell_data["vtkGhostType"] = np.array([32 * g for g in case["ghost"]], dtype=np.uint8)

    exp, first = expected(pts, cells, dead, remove)

    if not exp:
        from ..core import Skip

        raise Skip

    ndim = max(geo.DIM[t] for t, _ in cells)
    # removal of ghost cells is the documented default
    kw = {} if remove else {"remove_ghost_cells": False}
    out = rec.call(pvg.extract_cell_geometry, mesh, **kw)
    check(isinstance(out, pv.PolyData), "not a polydata but {}", type(out).__name__)
    check(geo.close(out.points, pts, 1e-6 * np.ptp(pts, axis=0).max()), "the points are not those of the mesh")
    got = geo.cells_of(out)
    check(out.n_verts == 0 and (out.n_lines == 0 if ndim == 3 else out.n_faces_strict == 0), "unexpected cells")
    check(len(got) == len(exp), "{} edges or faces instead of {}", len(got), len(exp))
    owners = np.asarray(out.cell_data["vtkOriginalCellIds"])
    check(len(owners) == len(got), "{} owner lists for {} edges or faces", len(owners), len(got))
    seen = set()

    for (t, ids), own in zip(got, owners):
        k = frozenset(int(i) for i in ids)
        check(k in exp, "edge or face {} does not belong to any cell", sorted(k))
        check(k not in seen, "edge or face {} returned twice", sorted(k))
        check(meshes.same_cycle(first[k], ids), "face {} is not the outline {}", list(ids), first[k])
        seen.add(k)
        o = sorted(int(x) for x in np.atleast_1d(own) if x != -1)
        check(o == sorted(exp[k]), "edge or face {} owned by {} instead of {}", sorted(k), o, exp[k])

    pairs = sorted((a, b) for o in exp.values() for i, a in enumerate(sorted(o)) for b in sorted(o)[i + 1 :])
    nb = [[] for _ in cells]

    for a, b in pairs:
        nb[a].append(b)
        nb[b].append(a)

    res = rec.call(pvg.get_neighborhood, mesh, **kw)
    check(len(res) == len(cells), "neighbours of {} cells instead of {}", len(res), len(cells))

    for i, (a, b) in enumerate(zip(res, nb)):
        check(np.asarray(a).dtype.kind == "i", "neighbours of cell {} are not integer cell ids", i)
        check(sorted(int(x) for x in a) == sorted(b), "neighbours of cell {} are {} instead of {}", i, list(a), b)

    for centers in (None, np.arange(3.0 * len(cells)).reshape(-1, 3) + 0.5):
        if centers is None and int(pv.CellType.EMPTY_CELL) in [t for t, _ in cells]:
            continue

        con = rec.call(pvg.get_connectivity, mesh, centers, **kw)
        check(con.n_faces_strict == 0 and (con.n_cells == con.n_lines or not pairs), "cells other than lines in the connectivity")
        check(isinstance(con, pv.PolyData), "connectivity is a {}", type(con).__name__)
        check(con.n_lines == len(pairs), "{} connections instead of {}", con.n_lines, len(pairs))

        if pairs:
            lines = sorted(tuple(sorted(int(x) for x in ids)) for _, ids in geo.cells_of(con) if len(ids) == 2)
            check(lines == pairs, "connections {} instead of {}", lines[:8], pairs[:8])

        if centers is not None:
            check(np.allclose(con.points, centers), "connections do not join the given centers")

        elif pairs:
            ref = np.array([pts[np.unique(np.hstack(c))].mean(axis=0) for t, c in cells])
            used = sorted({i for p in pairs for i in p if cells[i][0] not in NO_MEAN})
            check(geo.close(con.points[used], ref[used], 1e-5 * case["mesh"].get("scale", 1.0)), "connections do not join the cell centers")

    for n in (len(cells) - 1, len(cells) + 1):
        rec.raises(ValueError, pvg.get_connectivity, mesh, np.zeros((n, 3)), **kw)

    rec.state(str(case["mesh"]), str(case.get("ghost")), remove)
    rec.outcome(*geo.mesh_digest_parts(out))
