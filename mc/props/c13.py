"""
Two families of spaces, executed on the real code. 'structured': number of grids x axis x shape of the other axes x sizes along
the axis x attached cell data x interface fault, compared with a reference concatenation by index. 'merge'/'utility': sequences of up to three items
(structured, uniform, rectilinear, PolyData, unstructured, with and without groups) x item group x default and ignored groups x tolerance,
compared cell by cell (type, nodes, data, group name) with the union of the items.
"""

import numpy as np
import pyvista as pv

from .. import geo, layers
from ..core import Skip, check
from .c09 import names_of

ID = "C13"
PROPERTY = dict(
    title="Merging keeps every cell, its data and its group and shares common nodes",
    statement=(
        "merge(structured grids, axis) joins two or more 2D or 3D structured grids along an index axis into one structured grid whose nodes and "
        "cells are those of the grids in order with the shared interfaces once, with all cell data (scalars and vectors) present in every grid in its place, and raises ValueError "
        "for a missing axis or interfaces that do not match; other meshes give an unstructured grid with every cell and, with merge_points, coincident nodes shared. "
        "MeshMerge.generate_mesh returns an unstructured grid with every cell of every added mesh (any dataset type), coincident nodes within tolerance merged and none left unused, "
        "common cell data kept, each cell being in the group it has by name in its own mesh unless that is in ignore_groups, else in the group of its item, "
        "else in default_group; it raises ValueError without items."
    ),
    quantifier=dict(
        over=["inputs", "configurations", "histories"],
        text="every sequence of meshes of every type and shape, with every combination of attached groups and data, axis and tolerance",
    ),
    why_tests_cant="The tests merge one pair per kind and count cells; placement of data, groups of several items and interface errors are not checked.",
    files=["pvgridder/core/merge.py", "pvgridder/core/_base.py", "pvgridder/utils/_misc.py"],
    mechanism=[
        dict(name="structured concatenation", where="utils/_misc.py merge"),
        dict(name="groups of merged items", where="core/merge.py MeshMerge; core/_base.py _initialize_group_array, _clean"),
    ],
    level_note="Grids of 1 to 3 cells per axis, two to four grids; up to three items per merge.",
)
ASSUMPTIONS = ["Nodes are either equal up to rounding or further apart than twice the tolerance"]


# --------------------------------------------------------------------------- structured merge
def gen_structured(ctx):
    axis = ctx.choose("axis", [0, 1, 2], free=True)
    n = ctx.choose("n", [2, 3, 1, 4], free=True)
    other = ctx.choose("other", [(2, 3), (1, 2), (2, 1), (1, 1), (3, 0), (0, 2)], free=True)
    sizes = [ctx.choose(f"size{i}", [2, 1, 3]) for i in range(n)]

    return dict(
        axis=axis, other=other, sizes=sizes,
        data=ctx.choose("data", ["scalar", "none", "vector", "some", "int", "bool"], free=True),
        shape=ctx.choose("shape", ["warp", "flat", "far", "down"]),
        fault=ctx.choose("fault", [None, "shift", "gap", "noaxis", "one"]) if n > 1 else None,
    )


def gen_interface(ctx):
    """Every way in which two interfaces may fail to match: which grid, which nodes, which coordinate."""
    axis = ctx.choose("axis", [0, 1, 2], free=True)
    n = ctx.choose("n", [2, 3], free=True)

    return dict(
        axis=axis, other=ctx.choose("other", [(2, 3), (2, 0), (0, 2)], free=True), sizes=[2, 1, 2][:n], data=ctx.choose("data", ["scalar", "none"]), shape=ctx.choose("shape", ["warp", "flat"], free=True),
        fault=dict(grid=ctx.choose("grid", range(1, n), free=True), coord=ctx.choose("coord", [0, 1, 2], free=True), how=ctx.choose("how", ["first", "last", "middle", "tilt", "twist", "flip"], free=True)),
    )


def nodes_of(axis, other, sizes, shape):
    """Node coordinates of the whole grid, indexed [i, j, k]."""
    tot = sum(sizes)
    step = np.concatenate(([0.0], np.cumsum(0.5 + 0.25 * (np.arange(tot) % 3))))
    c = [None] * 3
    o = [a for a in range(3) if a != axis]
    c[axis] = -step if shape == "down" else step
    c[o[0]], c[o[1]] = np.arange(other[0] + 1) * 1.5, np.arange(other[1] + 1) * 0.75
    X = np.array(np.meshgrid(*c, indexing="ij"), float)

    if shape == "warp":
        X[o[0]] += 0.25 * X[axis]
        X[axis] += 0.125 * X[o[1]]

    elif shape == "far":
        X += np.array([1000.0, -2000.0, 100.0])[:, None, None, None]

    return X


def run_structured(case, pvg, rec):
    axis, sizes = case["axis"], case["sizes"]
    X = nodes_of(axis, case["other"], sizes, case["shape"])
    cdim = [max(1, n - 1) for n in X.shape[1:]]
    ids = np.arange(np.prod(cdim)).reshape(cdim, order="F")
    data = {}

    if case["data"] in ("scalar", "vector", "some"):
        data["a"] = ids * 1.5 + 0.25

    if case["data"] == "vector":
        data["v"] = np.stack((ids, -ids, ids * 2.0), axis=-1)

    if case["data"] == "int":
        data["i"] = ids * 3 - 1

    if case["data"] == "bool":
        data["b"] = ids % 3 == 0

    grids, k = [], 0

    for n, s in enumerate(sizes):
        sl = [slice(None)] * 3
        sl[axis] = slice(k, k + s + 1)
        g = pv.StructuredGrid(*[np.ascontiguousarray(x[tuple(sl)]) for x in X])
        sl[axis] = slice(k, k + s)

        for name, v in data.items():
            v = v[tuple(sl)]
            g.cell_data[name] = (
                np.column_stack([v[..., q].ravel(order="F") for q in range(3)]) if v.ndim == 4 else v.ravel(order="F")
            )

        if case["data"] == "some":
            g.cell_data[f"only{n}"] = np.zeros(g.n_cells)

        grids.append(g)
        k += s

    f = case["fault"]

    if isinstance(f, dict):
        g = grids[f["grid"]]
        m = np.array(g.points, float).reshape((*g.dimensions, 3), order="F")
        m = np.moveaxis(m, axis, 0)  # first index: along the merging axis
        n0, n1 = m.shape[1:3]
        w = np.zeros((n0, n1))

        if f["how"] in ("first", "last", "middle"):
            k = {"first": 0, "last": n0 * n1 - 1, "middle": n0 * n1 // 2}[f["how"]]
            w.flat[k] = 0.375

        elif f["how"] == "tilt":  # keeps the mean
            w += 0.25 * (np.arange(n0)[:, None] - (n0 - 1) / 2) + 0.25 * (np.arange(n1)[None] - (n1 - 1) / 2)

        elif f["how"] == "twist":
            w += 0.25 * (-1.0) ** (np.arange(n0)[:, None] + np.arange(n1)[None])

        else:  # nodes in reverse order
            w = m[0, ::-1, ::-1, f["coord"]] - m[0, :, :, f["coord"]]

        if not np.abs(w).max() > 0.1:
            raise Skip

        m[0, ..., f["coord"]] += w
        g.points = np.moveaxis(m, 0, axis).reshape((-1, 3), order="F")
        rec.raises(ValueError, pvg.merge, grids, axis=axis)
        return

    if f in ("shift", "gap"):
        v = np.zeros(3)
        v[axis if f == "gap" else (axis + 1) % 3] = 0.75
        grids[-1].points = grids[-1].points + v
        rec.raises(ValueError, pvg.merge, grids, axis=axis)
        return

    if f == "noaxis":
        rec.raises(ValueError, pvg.merge, grids)
        return

    if f == "one":
        grids = grids[:1]
        X = X[(slice(None), *[slice(0, sizes[0] + 1) if a == axis else slice(None) for a in range(3)])]
        data = {q: v[tuple(slice(0, sizes[0]) if a == axis else slice(None) for a in range(3))] for q, v in data.items()}

    m = rec.call(pvg.merge, grids, axis=axis)
    check(isinstance(m, pv.StructuredGrid), "type")
    check(list(m.dimensions) == list(X.shape[1:]), "dimensions {} instead of {}", list(m.dimensions), list(X.shape[1:]))
    check(geo.close(m.points, np.column_stack([x.ravel(order="F") for x in X])), "nodes of the merged grid")
    want = set(data) | ({"only0"} if len(grids) == 1 and case["data"] == "some" else set())
    check(set(m.cell_data.keys()) == want, "cell data {} instead of {}", list(m.cell_data.keys()), sorted(want))

    for name, v in data.items():
        ref = np.column_stack([v[..., q].ravel(order="F") for q in range(3)]) if v.ndim == 4 else v.ravel(order="F")
        got = np.asarray(m.cell_data[name])
        check(got.shape == ref.shape and geo.close(got, ref), "cell data '{}' of the merged grid is misplaced", name)

    rec.state(axis, np.asarray(m.points, float), case["data"])
    rec.outcome(tuple(m.dimensions), tuple(sorted(data)))


# --------------------------------------------------------------------------- unstructured merges
KINDS = ["struct", "tri", "image", "hex", "poly", "rect", "line", "s3d", "polyh"]
GROUPS = ["none", "AB", "BA", "unnamed", "AC"]


def item_mesh(kind, at):
    """Items lie side by side along x, unit interfaces at integer x."""
    if kind in ("struct", "image", "rect"):
        m = pv.ImageData(dimensions=(2, 3, 1), spacing=(1, 0.5, 1), origin=(at, 0, 0))

        return m.cast_to_structured_grid() if kind == "struct" else m if kind == "image" else pv.RectilinearGrid([at, at + 1.0], [0.0, 0.5, 1.0], [0.0])

    if kind == "s3d":
        return pv.ImageData(dimensions=(2, 2, 2), origin=(at, 0, 0)).cast_to_structured_grid()

    if kind == "hex":
        return pv.ImageData(dimensions=(2, 2, 2), origin=(at, 0, 0)).cast_to_structured_grid().cast_to_unstructured_grid()

    p = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (1, 0.5, 0), (0, 0.5, 0)], float) + [at, 0, 0]

    if kind == "tri":
        return pv.UnstructuredGrid([3, 0, 1, 4, 3, 0, 4, 5, 4, 5, 4, 2, 3], [5, 5, 9], p)

    if kind == "poly":
        return pv.PolyData(p, faces=[4, 0, 1, 4, 5, 4, 5, 4, 2, 3])

    if kind == "line":
        return pv.PolyData(p[:4], lines=[2, 0, 1, 2, 1, 2])

    q = np.vstack((p[:4], p[:4] + [0, 0, 1]))
    f = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
    s = [6] + [x for y in f for x in (4, *y)]

    return pv.UnstructuredGrid([len(s), *s], [42], q)


def gen_merge(kinds, nmax):
    def g(ctx):
        n = ctx.choose("n", [2, 1, 3][:nmax], free=True)
        items = []

        for i in range(n):
            items.append(
                dict(
                    kind=ctx.choose(f"kind{i}", kinds, free=i < 2),
                    at=i if i == 0 else ctx.choose(f"at{i}", [1, 5]) + items[-1]["at"],
                    groups=ctx.choose(f"groups{i}", GROUPS),
                    group=ctx.choose(f"group{i}", [None, "G", "A"]),
                )
            )

        jitter, tolerance = ctx.choose("jitter", [(0.0, None), (4e-3, 1e-2), (1e-10, None), (1e-3, None), (0.0, 1e-2)])

        return dict(
            items=items,
            default=ctx.choose("default", [None, "dflt", "A"]),
            ignore=ctx.choose("ignore", [None, ["A"], ["A", "B"]]),
            jitter=jitter,
            tolerance=tolerance,
        )

    return g


def gen_utility(ctx):
    n = ctx.choose("n", [2, 3], free=True)

    return dict(
        utility=[ctx.choose(f"kind{i}", ["tri", "hex", "struct", "polyh", "s3d"], free=True) for i in range(n)],
        at=[0] + [ctx.choose(f"at{i}", [1, 5], free=True) for i in range(n - 1)],
        merge_points=ctx.choose("mp", [None, False, True], free=True),
    )


def gen_err(ctx):
    return dict(err=ctx.choose("err", ["empty"], free=True))


def spaces(tier):
    if tier == "quick":
        return [
            ("structured", gen_structured, 1),
            ("interfaces", gen_interface, 0),
            ("merge", gen_merge(KINDS[:5], 3), 1),
            ("kinds", gen_merge(KINDS, 2), 0),
            ("utility", gen_utility, None),
            ("errors", gen_err, None),
        ]

    return [
        ("structured", gen_structured, 3),
        ("interfaces", gen_interface, None),
        ("merge", gen_merge(KINDS[:6], 3), 2),
        ("kinds", gen_merge(KINDS, 2), 2),
        ("utility", gen_utility, None),
        ("errors", gen_err, None),
    ]


NAMES = {"none": None, "AB": {"A": 0, "B": 1}, "BA": {"B": 0, "A": 1}, "unnamed": {"A": 1}, "AC": {"AC": 4, "B": 2}}


def cell_center(mesh, k, cells, pts):
    t, c = cells[k]

    return layers.unique_rows(pts[geo.cell_point_ids(t, c)])


def expected_union(meshes):
    """List of (type, nodes, id) of all cells."""
    out = []

    for m in meshes:
        pts, cells = np.asarray(m.points, float), geo.cells_of(m)

        for k, (t, c) in enumerate(cells):
            out.append((t, pts[geo.cell_point_ids(t, c)] if t == 42 else pts[c]))

    return out


def match_union(mesh, want, tol):
    """Match all cells of *mesh* with the wanted ones; returns the index of the wanted cell of each cell."""
    pts, cells = np.asarray(mesh.points, float), geo.cells_of(mesh)
    check(len(cells) == len(want), "{} cells instead of {}", len(cells), len(want))
    ids = np.asarray(mesh.cell_data["uid"]).astype(int)
    check(sorted(ids.tolist()) == list(range(len(want))), "common cell data is lost or duplicated: {}", ids.tolist())

    for k, (t, c) in enumerate(cells):
        wt, wp = want[ids[k]]
        check(t == wt, "cell type {} instead of {}", t, wt)
        p = pts[geo.cell_point_ids(t, c)] if t == 42 else pts[c]

        if t == 42:
            check(layers.same_rows(p, wp, tol) and layers.same_rows(wp, p, tol), "nodes of a polyhedron")

        else:
            check(p.shape == wp.shape and np.abs(p - wp).max() <= tol, "nodes of a cell")

    return ids


def run(case, rec):
    import pvgridder as pvg

    if "err" in case:
        rec.raises(ValueError, rec.call(pvg.MeshMerge).generate_mesh)
        rec.state("empty")
        return

    if "axis" in case:
        return run_structured(case, pvg, rec)

    if "utility" in case:
        meshes, x = [], 0

        for k, d in zip(case["utility"], case["at"]):
            x += d
            meshes.append(item_mesh(k, float(x)))

        n = 0

        for m in meshes:
            m.cell_data["uid"] = np.arange(m.n_cells) + n
            n += m.n_cells

        if all(isinstance(m, pv.StructuredGrid) for m in meshes):
            raise Skip

        kw = {} if case["merge_points"] is None else dict(merge_points=case["merge_points"])
        out = rec.call(pvg.merge, meshes, **kw)
        check(isinstance(out, pv.UnstructuredGrid), "type")
        match_union(out, expected_union(meshes), 1e-6)
        allp = np.vstack([m.points for m in meshes])
        ref = len(allp) if case["merge_points"] is False else layers.n_distinct(allp)
        check(out.n_points == ref, "{} nodes instead of {}", out.n_points, ref)
        rec.state("utility", np.asarray(out.points, float))
        rec.outcome(out.n_cells, out.n_points)
        return

    kw = {}

    if case["default"]:
        kw["default_group"] = case["default"]

    if case["ignore"]:
        kw["ignore_groups"] = case["ignore"]

    b = rec.call(pvg.MeshMerge, **kw)
    meshes, want_groups, n = [], [], 0

    for k, it in enumerate(case["items"]):
        m = item_mesh(it["kind"], it["at"] + k * case["jitter"])
        m.cell_data["uid"] = np.arange(m.n_cells) + n
        n += m.n_cells
        names = NAMES[it["groups"]]
        own = [None] * m.n_cells

        if names:
            num = [sorted(names.values())[q % len(names)] if it["groups"] != "unnamed" else q % 2 for q in range(m.n_cells)]
            m.cell_data["CellGroup"] = num
            m.user_dict["CellGroup"] = dict(names)
            inv = {v: q for q, v in names.items()}
            own = [inv.get(q) for q in num]
            own = [None if q in (case["ignore"] or []) else q for q in own]

        fallback = it["group"] or case["default"] or "default"
        want_groups += [q or fallback for q in own]
        meshes.append(m)
        rec.call(b.add, m, it["group"])

    out = rec.call(b.generate_mesh, **({} if case["tolerance"] is None else dict(tolerance=case["tolerance"])))
    check(isinstance(out, pv.UnstructuredGrid), "type")
    jt = case["jitter"] * 3 + 1e-6
    ids = match_union(out, expected_union([m.cast_to_unstructured_grid() if not isinstance(m, pv.PolyData) else m for m in meshes]), jt)
    got = names_of(out)
    want = [want_groups[i] for i in ids]
    check(got == want, "groups {} instead of {}", got, want)
    check(set(out.user_dict) == {"CellGroup"}, "user_dict {}", dict(out.user_dict))
    used = np.vstack([np.asarray(m.points, float)[sorted({i for t, c in geo.cells_of(m) for i in geo.cell_point_ids(t, c)})] for m in meshes])
    merged = case["jitter"] < 1e-8 or case["tolerance"]
    ref = layers.n_distinct(used, (case["tolerance"] or 1e-6) / max(1.0, np.abs(used).max()) if merged else 1e-6)
    check(out.n_points == ref, "{} nodes instead of {}", out.n_points, ref)
    rec.state("merge", np.asarray(out.points, float), tuple(want))
    rec.outcome(out.n_cells, tuple(sorted(set(want))))
