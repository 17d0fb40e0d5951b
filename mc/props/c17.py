"""
Explicit enumeration of every selection (all subsets as masks and index lists, single indices, inverted or not) on every small mesh of a family
(all cell types, structured types, all ghost masks), and of every dimension query on meshes of mixed dimension.
The real extract_cells and extract_cells_by_dimension are compared cell by cell, array by array with the cells the mesh was built from.
"""

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import check

ID = "C17"
PROPERTY = dict(
    title="Cell extraction returns exactly the selected cells with their data",
    statement=(
        "extract_cells returns an unstructured grid with exactly the selected cells (an index, indices in any order, or a mask; the others if inverted) in ascending order, each with the type, coordinates, "
        "point and cell data (including vtkGhostType) and groups it has in the mesh, ghost or not, and vtkOriginalCellIds giving its index; an empty mask gives an empty mesh. "
        "extract_cells_by_dimension returns exactly the cells whose dimension is at least ('upper') or at most ('lower') the given one (by default the dimension of the mesh), "
        "and empty cells if and only if keep_empty_cells is set; any other method is rejected and the mesh keeps its data."
    ),
    quantifier=dict(over=["inputs"], text="all mesh and cell types, selections, ghost masks and dimensions"),
    why_tests_cant="Tests compare numbers of cells for one selection; which cells and which data come back is not checked.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[
        dict(name="ghost-aware extraction", where="utils/_misc.py extract_cells"),
        dict(name="dimension table", where="utils/_properties.py _dimension_map; utils/_misc.py extract_cells_by_dimension"),
    ],
    state=["cells of the mesh", "selection", "ghost cells"],
    level_note="All subsets of up to 4 (quick) or 6 (thorough) cells with all ghost masks; all dimension queries on all 2- and 3-cell mixes of nine cell codes.",
)
ASSUMPTIONS = []


def gen_sel(mesh_list, ghosts):
    def g(ctx):
        spec = ctx.choose("mesh", mesh_list, free=True)
        n = len(meshes.build(spec)[1])
        mask = [int(ctx.flag(f"s{i}", free=True)) for i in range(n)]
        how = ctx.choose("how", ("mask", "ids", "reversed", "list", "single"), free=True)
        invert = ctx.flag("invert", free=True)
        ghost = None

        if how in ("ids", "reversed", "list") and not any(mask):
            return None

        if how == "single" and sum(mask) != 1:
            return None

        if how == "reversed" and sum(mask) < 2:
            return None

        if ghosts and spec["kind"] == "structured":
            ghost = [int(ctx.flag(f"g{i}", free=True)) for i in range(n)]

            if not any(ghost):
                ghost = None

        return dict(mesh=spec, mask=mask, how=how, invert=invert, ghost=ghost)

    return g


def gen_dim(kinds):
    def g(ctx):
        k, dims, codes = ctx.choose("kind", kinds, free=True)
        n = int(np.prod(dims))
        c = "".join(ctx.choose(f"c{i}", codes, free=True) for i in range(n))
        ndim = ctx.choose("ndim", (None, 0, 1, 2, 3, 4), free=True)
        method = ctx.choose("method", ("upper", "lower", None, "bad"), free=True)
        keep = ctx.flag("keep_empty", free=True)

        if not set(c) - set("e-"):
            return None

        return dict(mesh=dict(kind=k, dims=dims, cells=c), ndim=ndim, method=method, keep=keep)

    return g


def struct(*dims_types):
    return [dict(kind="structured", dims=list(d), type=t) for d in dims_types for t in ("struct", "image", "rect")]


def spaces(tier):
    ug = [
        dict(kind="cells2d", dims=[2, 2], cells="qtge"),
        dict(kind="cells2d", dims=[2, 2], cells="xoql"),
        dict(kind="cells2d", dims=[2, 2], cells="tuo-", type="poly"),
        dict(kind="cells3d", dims=[2, 1, 1], cells="hw"),
        dict(kind="cells3d", dims=[2, 2, 1], cells="vpeh"),
        dict(kind="cells3d", dims=[2, 1, 1], cells="pk"),
        dict(kind="lines", cells=[[0, 1], [1, 2, 3], [2, 4]], type="poly"),
    ]

    if tier == "quick":
        return [
            ("unstructured", gen_sel(ug, False), None),
            ("structured", gen_sel(struct((3, 0, 0), (2, 1, 0), (1, 0, 3), (2, 2, 1)), True), None),
            ("dimension", gen_dim([("cells2d", [2, 1], "qteln-"), ("cells3d", [2, 1, 1], "hpeqln-"), ("cells3d", [1, 1, 3], "pqe")]), None),
        ]

    ug.append(dict(kind="cells3d", dims=[2, 2, 1], cells="ywek"))

    return [
        ("unstructured", gen_sel(ug, False), None),
        ("structured", gen_sel(struct((3, 0, 0), (2, 2, 0), (1, 0, 4), (0, 5, 1), (2, 2, 1), (1, 1, 5)), True), None),
        ("dimension", gen_dim([("cells2d", [2, 2], "qteln-"), ("cells3d", [2, 1, 1], "hvwpkyeqln-"), ("cells3d", [1, 1, 3], "hpeqln-")]), None),
    ]


def decorate(mesh, cells, ghost):
    mesh.cell_data["cid"] = np.arange(mesh.n_cells)
    mesh.cell_data["vec"] = np.arange(3.0 * mesh.n_cells).reshape(-1, 3)
    mesh.cell_data["CellGroup"] = np.arange(mesh.n_cells) % 2
    mesh.point_data["pid"] = np.arange(mesh.n_points)
    mesh.user_dict["CellGroup"] = {"A": 0, "B": 1}

    if ghost is not None:
        mesh.cell_data["vtkGhostType"] = np.array([32 * g for g in ghost], dtype=np.uint8)


def compare(out, mesh, cells, ids, types=True):
    """*out* contains exactly the cells *ids* of *mesh*."""
    check(isinstance(out, pv.UnstructuredGrid), "not an unstructured grid but {}", type(out).__name__)
    check(out.n_cells == len(ids), "{} cells instead of {}", out.n_cells, len(ids))

    if not ids:
        return

    pts, opts = np.array(mesh.points, float), np.array(out.points, float)
    check(list(out.cell_data["cid"]) == ids, "cells {} instead of {}", list(out.cell_data["cid"]), ids)
    got = geo.cells_of(out)

    for (t, c), i in zip(got, ids):
        t0, c0 = cells[i]
        f = lambda c: [[int(x) for x in q] for q in c] if c and isinstance(c[0], (list, tuple, np.ndarray)) else [[int(x) for x in c]]
        a, b = f(c), f(c0)

        if types:
            check(int(t) == t0, "cell {} of type {} instead of {}", i, t, t0)
            check([len(x) for x in a] == [len(x) for x in b], "corners of cell {}", i)

            for x, y in zip(a, b):
                check(np.array_equal(opts[x], pts[y]) if x else not y, "cell {} has other corners", i)

        else:
            check(geo.DIM[int(t)] == geo.DIM[t0], "dimension of cell {}", i)
            u, v = opts[a[0]], pts[b[0]]
            check(u.shape == v.shape and np.array_equal(u[np.lexsort(u.T)], v[np.lexsort(v.T)]), "cell {} has other corners", i)

    pid = out.point_data["pid"]
    check(np.array_equal(opts, pts[pid]), "point data do not belong to the points")

    for k in mesh.cell_data.keys():
        if k not in geo.BOOKKEEPING:
            check(k in out.cell_data and np.array_equal(out.cell_data[k], np.asarray(mesh.cell_data[k])[ids]), "cell data '{}'", k)

    check(geo._user_dict(out) == geo._user_dict(mesh), "groups {}", geo._user_dict(out))


def run(case, rec):
    import pvgridder as pvg

    mesh, cells = meshes.build(case["mesh"])
    ghost = case.get("ghost")
    decorate(mesh, cells, ghost)
    before = geo.snapshot(mesh)
    explicit = case["mesh"].get("type") not in ("image", "rect", "struct")

    if "mask" in case:
        sel = np.flatnonzero(case["mask"])
        arg = {
            "mask": np.array(case["mask"], bool),
            "ids": sel,
            "reversed": sel[::-1],
            "list": [int(i) for i in sel] + [int(i) for i in sel[:1]],
            "single": int(sel[0]) if len(sel) else 0,
        }[case["how"]]
        ids = [i for i in range(len(cells)) if bool(case["mask"][i]) != case["invert"]]
        out = rec.call(pvg.extract_cells, mesh, arg, invert=case["invert"])
        compare(out, mesh, cells, ids, explicit)

        if ids:
            check(list(out.cell_data["vtkOriginalCellIds"]) == ids, "vtkOriginalCellIds {} instead of {}", list(out.cell_data["vtkOriginalCellIds"]), ids)
            check(list(pvg.get_cell_group(out)) == ["AB"[i % 2] for i in ids], "groups of the extracted cells")

    elif case["method"] == "bad":
        rec.raises(ValueError, pvg.extract_cells_by_dimension, mesh, case["ndim"], "bad", case["keep"])

    else:
        kw = {k: case[k] for k in ("ndim", "method") if case[k] is not None}

        if case["keep"]:
            kw["keep_empty_cells"] = True

        dims = [geo.DIM[t] for t, _ in cells]
        ndim = case["ndim"] if case["ndim"] is not None else max(dims)
        ids = []

        for i, d in enumerate(dims):
            if d == -1:
                if case["keep"]:
                    ids.append(i)

            elif (d <= ndim) if case["method"] == "lower" else (d >= ndim):
                ids.append(i)

        out = rec.call(pvg.extract_cells_by_dimension, mesh, **kw)
        compare(out, mesh, cells, ids)

    d = geo.snapshot_diff(before, geo.snapshot(mesh))
    check(not d, "mesh modified: {}", d)
    rec.state(str(case))
    rec.outcome(str(case["mesh"]), case.get("mask"), case.get("ndim"))
