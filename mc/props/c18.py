"""
Every subset of the cells of small meshes is fused (and every pair of disjoint subsets of a smaller one, every order of the indices of small groups), for all cell types, planes and dataset types, given as lists, arrays or masks.
The oracle walks the edges used by one cell of the group; the group can be fused if and only if they form a single simple loop.
"""

import itertools
from collections import Counter

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import Skip, check
from .c19 import loops_of

ID = "C18"
PROPERTY = dict(
    title="Fusing cells replaces each group by the polygon around it and nothing else",
    statement=(
        "fuse_cells returns a mesh in which each group of connected 2D cells (one group or several disjoint ones, as indices or as a mask) is replaced by one polygon along the boundary of the group, with all its nodes, at the position of the first index and "
        "with the data of that cell; all other cells keep their shape, order and data, and points keep their data. The total area is therefore unchanged. "
        "Groups that are not connected through edges or that enclose a hole raise ValueError, cells that are not 2D raise NotImplementedError."
    ),
    quantifier=dict(over=["inputs"], text="all subsets of the cells of small meshes, orders, pairs of groups, cell types, planes, dataset types"),
    why_tests_cant="Tests count cells and compare the area for three groups.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="boundary of the group mapped to point ids", where="utils/_misc.py fuse_cells"), dict(name="boundary polygons", where="utils/_misc.py extract_boundary_polygons")],
    state=["connectivity", "cell types", "mask of kept cells"],
    level_note="All 511 subsets of a 3x3 lattice, all pairs of disjoint subsets of a 3x2 lattice (thorough) or of up to three cells each (quick).",
)

MESH = {
    "quads": dict(kind="cells2d", dims=[3, 3], cells="qqqqqqqqq"),
    "mixed": dict(kind="cells2d", dims=[3, 2], cells="qtgqxu"),
    "small": dict(kind="cells2d", dims=[3, 2], cells="qqqqqq"),
    "rev": dict(kind="cells2d", dims=[3, 2], cells="rqrtqr"),
    "hole": dict(kind="cells2d", dims=[3, 3], cells="qqqq-qqqq"),
}


def common(ctx):
    return dict(
        axis=ctx.choose("axis", (2, 1, 0)),
        type=ctx.choose("type", ("ug", "poly", "struct", "image")),
        form=ctx.choose("form", ("list", "array", "mask", "tuple")),
        shift=ctx.choose("shift", (0.0, 1000.1)),
        dup=ctx.flag("duplicated points"),
        warp=ctx.flag("warp"),
    )


def gen_subsets(names):
    def g(ctx):
        name = ctx.choose("mesh", names, free=True)
        n = len(meshes.cells2d(MESH[name]["dims"], MESH[name]["cells"])[1])
        sub = [i for i in range(n) if ctx.flag("in", free=True)]

        if not sub:
            return None

        return dict(mesh=name, groups=[sub], **common(ctx))

    return g


def gen_pairs(limit):
    def g(ctx):
        name = "small"
        n = 6
        who = [ctx.choose("grp", (0, 1, 2), free=True) for _ in range(n)]
        a, b = [[i for i in range(n) if who[i] == k] for k in (1, 2)]

        if not a or not b or len(a) > limit or len(b) > limit:
            return None

        return dict(mesh=name, groups=[a, b], **common(ctx))

    return g


def gen_orders(ctx):
    sub = ctx.choose("sub", ([0, 1, 3], [1, 4], [2, 1, 0], [0, 1, 3, 4]), free=True)

    return dict(mesh=ctx.choose("mesh", ("small", "quads"), free=True), groups=[list(ctx.choose("perm", list(itertools.permutations(sub)), free=True))], **common(ctx))


def gen_3d(ctx):
    return dict(d3=ctx.choose("cells", ("hh", "ww", "vp"), free=True), groups=[ctx.choose("g", ([0, 1], [0]), free=True)])


def spaces(tier):
    q = tier == "quick"

    return [
        ("subsets", gen_subsets(["quads", "small"]), 0 if q else 1),
        ("subsets of mixed cells", gen_subsets(["mixed", "rev", "hole"]), 0),
        ("options", gen_subsets(["small"]), 1 if q else 3),
        ("pairs", gen_pairs(3 if q else 6), 0 if q else 1),
        ("orders", gen_orders, 1 if q else 2),
        ("3d", gen_3d, None),
    ]


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "d3" in case:
        mesh, _ = meshes.build(dict(kind="cells3d", dims=[2, 1, 1], cells=case["d3"]))
        rec.raises(NotImplementedError, pvg.fuse_cells, mesh, case["groups"][0])
        return

    spec = dict(MESH[case["mesh"]], axis=case["axis"])
    typ = case["type"]
    rect = set(spec["cells"]) == {"q"}

    if typ in ("struct", "image") and not rect:
        raise Skip

    if typ == "poly" and not set(spec["cells"]) <= set("qrtu"):
        raise Skip

    if typ in ("ug", "poly"):
        mesh, cells = meshes.build(dict(spec, type=typ))

    else:
        dims = list(spec["dims"])
        dims.insert(case["axis"], 0)
        mesh, cells = meshes.structured(dims, typ)

    if typ != "image":
        p = np.array(mesh.points, float) + case["shift"]

        if case["warp"]:
            p[:, case["axis"]] += 0.1 * np.cos(np.arange(len(p)))

        mesh.points = p

    elif case["shift"]:
        mesh.origin = [case["shift"]] * 3

    P = np.array(mesh.points, float)

    if case["dup"]:
        if typ != "ug":
            raise Skip

        # every cell gets its own points
        conn, k, q = [], 0, []

        for t, c in cells:
            conn.append((t, list(range(k, k + len(c)))))
            q += P[c].tolist()
            k += len(c)

        mesh = meshes.ugrid(q, conn)

    mesh.cell_data["a"] = 100 + np.arange(mesh.n_cells)
    mesh.cell_data["v"] = np.arange(3.0 * mesh.n_cells).reshape(-1, 3)
    X = np.array(mesh.points, float)
    mesh.point_data["x"] = X @ [1.0, 2.0, 3.0]
    mesh.user_dict["a"] = {"one": 1}
    groups = case["groups"]
    form = {"list": list, "tuple": tuple, "array": np.array, "mask": lambda g: np.isin(np.arange(len(cells)), g)}[case["form"]]
    arg = [form(g) for g in groups] if len(groups) > 1 else form(groups[0])
    loops, ok = [], True

    for g in groups:
        cnt = Counter(frozenset(e) for i in g for e in meshes.boundary(*cells[i]))
        bnd = [e for e, n in cnt.items() if n == 1]
        deg = Counter(p for e in bnd for p in e)

        if any(d > 2 for d in deg.values()):
            ok = False
            continue

        lp = loops_of(bnd)
        ok = ok and len(lp) == 1
        loops.append(lp[0])

    if not ok:
        rec.raises(ValueError, pvg.fuse_cells, mesh, arg)
        return

    out = rec.call(pvg.fuse_cells, mesh, arg)
    check(isinstance(out, pv.UnstructuredGrid), "not an unstructured grid")
    firsts = [sorted(g)[0] if case["form"] == "mask" else g[0] for g in groups]
    kept = [i for i in range(len(cells)) if not any(i in g for g in groups) or i in firsts]
    check(out.n_cells == len(kept), "{} cells instead of {}", out.n_cells, len(kept))
    Q = np.array(out.points, float)
    d = np.abs(Q[:, None] - P[None]).max(axis=2)
    check(d.min(axis=1).max() < 1e-6 * (1 + case["shift"]), "points moved")
    ids = d.argmin(axis=1)
    check(len(set(ids)) == len(ids), "points are duplicated")
    area = 0.0

    for j, (i, (t, c)) in enumerate(zip(kept, geo.cells_of(out))):
        got = ids[c].tolist()
        mesh_t, mesh_c = cells[i]

        if i in firsts:
            check(t == int(pv.CellType.POLYGON), "fused cell {} is of type {}", i, t)
            exp = loops[firsts.index(i)]
            check(meshes.same_cycle(got, exp), "fused cell {} instead of {}", got, exp)

        else:
            check(int(t) == int(out.celltypes[j]) and geo.DIM[t] == 2, "cell {} is of type {}", i, t)
            a, b = [[x[k] for k in (0, 1, 3, 2)] if tt == int(pv.CellType.PIXEL) else list(x) for tt, x in ((t, got), (mesh_t, mesh_c))]
            check(meshes.same_cycle(a, b), "cell {} changed from {} to {}", i, b, a)

        if t == int(pv.CellType.PIXEL):
            c = [c[k] for k in (0, 1, 3, 2)]

        area += float(np.linalg.norm(geo.area_vector(Q[c])))

    if not case["warp"]:
        total = sum(float(np.linalg.norm(geo.area_vector(P[[c[k] for k in (0, 1, 3, 2)] if t == int(pv.CellType.PIXEL) else c]))) for t, c in cells)
        check(abs(area - total) < 1e-3, "area {} instead of {}", area, total)

    for k in ("a", "v"):
        check(k in out.cell_data and np.array_equal(np.asarray(out.cell_data[k]), np.asarray(mesh.cell_data[k])[kept]), "cell data {}", k)

    check("x" in out.point_data and geo.close(np.asarray(out.point_data["x"]), Q @ [1.0, 2.0, 3.0], 1e-2 if case["shift"] else 1e-5), "point data")
    check(dict(out.user_dict).get("a") is not None and dict(out.user_dict["a"]) == {"one": 1}, "user_dict lost")
    rec.outcome(tuple(kept), tuple(map(tuple, loops)))
