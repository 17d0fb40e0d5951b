"""
Deviation-bounded product of the steps of a complete pipeline as in the user's scripts and the examples of the package: pieces of a quarter of a well (core or hole, rings, rectangle around a sector, rectangles around it) and
their subdivisions, number of rotated quarters, way of merging, Voronoi mesh or not, extrusion or stack with several items and groups, removal of a group, and a final utility; and the example meshes for all of their arguments.
Every step is executed on the real code; after every step the mesh is compared with closed formulas of the pieces: area or volume, length or area of the boundary, number of cells per group, every internal edge or face
shared by exactly two cells, no unused or repeated points, and the numbers of connections.
"""

from collections import Counter

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C33"
PROPERTY = dict(
    title="Pipelines of generators, builders and utilities conserve measure and groups",
    statement=(
        "A mesh assembled from matching pieces (generators, rotated copies, merge or MeshMerge), turned into a Voronoi mesh, extruded or stacked, restricted to some of its groups and passed through a utility is conforming after each step: every edge (2D) or face (3D) within the domain is shared by "
        "exactly two cells, no point is repeated or unused, and the area or volume, the boundary and the number of cells of each named group are those of the pieces. "
        "The example meshes of the package are such meshes for all their arguments."
    ),
    quantifier=dict(over=["inputs", "histories"], text="all combinations of the steps of a pipeline within the bounds"),
    why_tests_cant="Tests call every function on its own; no test looks at a mesh that went through several of them.",
    files=["pvgridder/core/merge.py", "pvgridder/core/extrude.py", "pvgridder/core/stack.py", "pvgridder/core/voronoi.py", "pvgridder/core/geometric_objects.py", "pvgridder/utils/_misc.py", "pvgridder/examples/examples.py"],
    mechanism=[dict(name="groups through merge, Voronoi and extrusion", where="core/_base.py MeshBase._initialize_group_array"), dict(name="merging of coincident points", where="utils/_misc.py merge")],
    state=["2D mesh", "3D mesh", "groups"],
    level_note="Wells of up to four quarters, two rings and three extruded items.",
)
ASSUMPTIONS = ["Voronoi meshes collapse edges shorter than 1e-4, so that their measures are compared within 1e-4"]


def gen(ctx):
    return dict(
        core=ctx.choose("core", ("sector", "hole")),
        t=ctx.choose("t", (2, 1, 3)),  # half the number of sectors
        rings=ctx.choose("rings", ([1], [], [2], [1, 2], [2, 2])),
        outer=ctx.choose("outer", ("square", "none", "rects")),
        nr=ctx.choose("nr", (2, 1, 3)),
        method=ctx.choose("method", (None, "log", "log_r")),
        quarters=ctx.choose("quarters", (4, 1, 2, 3)),
        how=ctx.choose("how", ("builder", "merge", "nested", "flat")),
        same=ctx.flag("same group everywhere"),
        voronoi=ctx.flag("voronoi", free=True),
        third=ctx.choose("third", (None, "extrude", "stack"), free=True),
        layers=ctx.choose("layers", ([2], [1], [2, 1], [1, 2, 1])),
        group=ctx.choose("group", (None, "name", "dict", "callable")),
        select=ctx.choose("select", (None, "Core", "Ring", "~Ring", "Top")),
        final=ctx.choose("final", (None, "quadratic", "remap", "merge", "dimension", "ids")),
        shift=ctx.choose("shift", (0.0, 1000.0)),
    )


def gen_examples(top):
    def g(ctx):
        name = ctx.choose("name", ("well_2d", "well_3d", "anticline_2d", "anticline_3d", "concave_polyhedron", "half_stadium"), free=True)
        arg = ctx.flag("voronoi", free=True) if name.startswith("well") else ctx.choose("resolution", (None, *range(1, top)), free=True) if name == "half_stadium" else None

        return dict(name=name, arg=arg, fixed=True)

    return g


def spaces(tier):
    if tier == "quick":
        return [("pipelines", gen, 2), ("examples", gen_examples(25), None)]

    return [("pipelines", gen, 3), ("examples", gen_examples(100), None)]


# --------------------------------------------------------------------------- model
def sector_area(r, n):
    return n * 0.5 * r * r * np.sin(0.5 * np.pi / n)


def arc(r, n):
    return n * 2.0 * r * np.sin(0.25 * np.pi / n)


class Model:
    """Measures of the well."""

    def __init__(self, case):
        n = 2 * case["t"]
        self.radii = [0.5 + 0.5 * i for i in range(len(case["rings"]) + 1)]
        r = self.radii[-1]
        self.size = {"none": r, "square": r + 1.5, "rects": 2 * (r + 1.5)}[case["outer"]]
        k = case["quarters"]
        rin = self.radii[0] if case["core"] == "hole" else 0.0
        areas = {"Core": sector_area(self.radii[0], n) if not rin else 0.0, "Ring": 0.0, "Outer": 0.0}
        cells = {"Core": n if not rin else 0, "Ring": 0, "Outer": 0}

        for a, b, m in zip(self.radii[:-1], self.radii[1:], case["rings"]):
            areas["Ring"] += sector_area(b, n) - sector_area(a, n)
            cells["Ring"] += m * n

        edge = arc(r, n)

        if case["outer"] != "none":
            areas["Outer"] = self.size**2 - sector_area(r, n)
            edge = 2 * self.size
            cells["Outer"] = case["nr"] * n + (0 if case["outer"] == "square" else 3 * case["t"] ** 2)

        self.rin = rin
        self.area = {g: k * a for g, a in areas.items() if cells[g]}
        self.cells = {g: k * c for g, c in cells.items() if c}
        self.boundary = k * (edge + (arc(rin, n) if rin else 0.0)) + (2 * (self.size - rin) if k < 4 else 0.0)
        self.empty = not self.cells


def verify(mesh, dim, rtol, measure=None, boundary=None, cells=None, what="", coarse=False, layered=False):
    """Conformity and measures; returns cells and internal interfaces."""
    P = np.asarray(mesh.points, float)
    C = geo.cells_of(mesh)
    ghost = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(len(C), int)
    check(all(geo.DIM[t] == dim for t, _ in C), "{}: cells of other dimensions", what)
    scale = np.ptp(P, axis=0).max()
    eps = 1e-7 if rtol < 1e-5 and not coarse else 1e-10  # a Voronoi vertex may almost coincide with the boundary
    uniq = np.unique(np.round((P - P.min(axis=0)) / (eps * scale)).astype(np.int64), axis=0)
    check(layered or len(uniq) == len(P), "{}: {} points at {} locations", what, len(P), len(uniq))
    used = {i for t, c in C for i in geo.cell_point_ids(t, c)}
    check(len(used) == len(P), "{}: {} unused points", what, len(P) - len(used))
    sizes = geo.cell_sizes(mesh)
    check(((sizes > 0) | (ghost > 0)).all(), "{}: collapsed cells", what)
    count, size = Counter(), {}

    for (t, c), g in zip(C, ghost):
        if g:
            continue

        if dim == 2:
            lp = geo.boundary_loops(t, c)
            faces = [[a, b] for a, b in zip(lp, lp[1:] + lp[:1])]

        else:
            faces = geo.cell_faces(t, c)

        for f in faces:
            k = frozenset(f)
            count[k] += 1

            if k not in size:
                size[k] = float(np.linalg.norm(P[f[0]] - P[f[1]])) if dim == 2 else float(np.linalg.norm(geo.area_vector(P[f])))

    check(max(count.values()) <= 2, "{}: interfaces with more than two cells", what)
    total = float(sizes[ghost == 0].sum())

    if measure is not None:
        check(abs(total - measure) <= rtol * measure, "{}: measure {} instead of {}", what, total, measure)

    if boundary is not None:
        b = sum(size[k] for k, n in count.items() if n == 1)
        check(abs(b - boundary) <= (30 * rtol if coarse else rtol) * boundary, "{}: boundary of {} instead of {}", what, b, boundary)

    if cells is not None:
        ud = {v: k for k, v in dict(mesh.user_dict["CellGroup"]).items()}
        got = Counter(ud.get(int(g), "?") for g in mesh.cell_data["CellGroup"])
        check(dict(got) == {k: v for k, v in cells.items() if v}, "{}: cells per group {} instead of {}", what, dict(got), cells)

    return C, sum(n == 2 for n in count.values()), sizes


def quarter(case, mod, rec, pvg):
    """Pieces with their groups."""
    n = 2 * case["t"]
    sh = [case["shift"], -case["shift"], 0.0]
    out = []
    call = rec.call
    name = lambda g: "Core" if case["same"] else g

    if case["core"] == "sector":
        out.append((call(pvg.Sector, mod.radii[0], 0.0, 90.0, n, center=sh), name("Core")))

    for a, b, m in zip(mod.radii[:-1], mod.radii[1:], case["rings"]):
        out.append((call(pvg.AnnularSector, a, b, 0.0, 90.0, m, n, r_method=case["method"], center=sh), name("Ring")))

    if case["outer"] != "none":
        s = mod.size if case["outer"] == "square" else 0.5 * mod.size
        out.append((call(pvg.SectorRectangle, mod.radii[-1], s, s, case["nr"], case["t"], case["method"], center=sh), name("Outer")))

        if case["outer"] == "rects":
            for i, j in ((1, 0), (1, 1), (0, 1)):
                out.append((call(pvg.Rectangle, s, s, case["t"], case["t"], center=[sh[0] + i * s, sh[1] + j * s, 0.0]), name("Outer")))

    return out


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "name" in case:
        run_example(case, rec)
        return

    mod = Model(case)

    if mod.empty or (case["outer"] == "none" and case["nr"] != 2) or (case["third"] is None and (len(case["layers"]) > 1 or case["layers"] != [2] or case["group"] or case["select"] == "Top")):
        return  # an unused choice

    if case["same"]:
        mod.area, mod.cells = {"Core": sum(mod.area.values())}, {"Core": sum(mod.cells.values())}

    if case["group"] == "dict" and "Ring" not in mod.cells:
        return  # no such group

    call = rec.call
    pieces = quarter(case, mod, rec, pvg)
    pivot = (case["shift"], -case["shift"], 0.0)
    turned = [(m.cast_to_unstructured_grid().rotate_z(90.0 * q, point=pivot), g) for q in range(case["quarters"]) for m, g in pieces]
    gen_kw = dict(tolerance=1e-6)

    if case["how"] == "builder":
        b = call(pvg.MeshMerge)

        for m, g in turned:
            b = call(b.add, m, group=g)

        mesh = call(b.generate_mesh, **gen_kw)

    elif case["how"] == "nested":  # a quarter first, as in the examples
        b = call(pvg.MeshMerge)

        for m, g in pieces:
            b = call(b.add, m, group=g)

        one = call(b.generate_mesh, **gen_kw)
        b = call(pvg.MeshMerge)

        for q in range(case["quarters"]):
            b = call(b.add, one.rotate_z(90.0 * q, point=pivot))

        mesh = call(b.generate_mesh, **gen_kw)

    else:
        names = []

        for m, g in turned:
            if g not in names:
                names.append(g)

            m.points = np.round(np.asarray(m.points, float), 6)  # merge joins coincident points only, arcs are in single precision
            m.cell_data["CellGroup"] = np.full(m.n_cells, names.index(g))

        if case["how"] == "flat":
            mesh = call(pvg.merge, [m for m, _ in turned])

        else:  # two at a time
            mesh = turned[0][0]

            for m, _ in turned[1:]:
                mesh = call(pvg.merge, [mesh, m])

        mesh.user_dict["CellGroup"] = {g: i for i, g in enumerate(names)}

    rtol = 1e-6 if case["how"] in ("builder", "nested") else 1e-5
    area, n2 = sum(mod.area.values()), sum(mod.cells.values())
    _, inner, sizes2 = verify(mesh, 2, rtol, area, mod.boundary, mod.cells, "2D mesh")

    if case["voronoi"]:
        v = call(pvg.VoronoiMesh2D, mesh)
        mesh = call(v.generate_mesh)
        rtol = 2e-4
        split = mesh.n_cells != n2

        if split:  # cells cut into parts by concave boundaries
            check(mesh.n_cells > n2 and (case["quarters"] == 3 or mod.rin > 0.0 or case["outer"] == "none"), "{} Voronoi cells instead of {}", mesh.n_cells, n2)

        S = np.column_stack([np.asarray(mesh.cell_data[k], float) for k in "XYZ"])
        check(len(np.unique(np.round(S, 6), axis=0)) == n2, "number of seeds")
        _, inner, sizes2 = verify(mesh, 2, rtol, area, mod.boundary, None if split else mod.cells, "Voronoi mesh")

    names2 = {v: k for k, v in dict(mesh.user_dict["CellGroup"]).items()}
    G2 = [names2.get(int(g), "?") for g in mesh.cell_data["CellGroup"]]
    C = geo.cells_of(mesh)
    nc = len(C)

    # columns: group, area; layers: thickness and whether the group is replaced
    rows = [(G2[i], float(sizes2[i])) for i in range(nc)]
    dim = 2

    if case["third"]:
        steps = [(1.0 + 0.5 * i, n) for i, n in enumerate(case["layers"])]
        group = {None: None, "name": "Top", "dict": {"Top": "~Ring"}, "callable": {"Top": lambda m: np.arange(m.n_cells) % 2 == 0}}[case["group"]]
        top = {None: lambda i: G2[i], "name": lambda i: "Top", "dict": lambda i: G2[i] if G2[i] == "Ring" else "Top", "callable": lambda i: "Top" if i % 2 == 0 else G2[i]}[case["group"]]

        if case["third"] == "extrude":
            b = call(pvg.MeshExtrude, mesh)

        else:
            b = call(pvg.MeshStack3D, mesh)
            call(b.add, 0.0)

        for i, (h, n) in enumerate(steps):
            last = i == len(steps) - 1
            kw = dict(group=group) if last and group else {}
            call(b.add, [0.0, 0.0, h] if case["third"] == "extrude" else h, n, **kw)

        mesh3 = call(b.generate_mesh)
        H = sum(h for h, _ in steps)
        N = sum(n for _, n in steps)
        rows = []

        for k, (h, n) in enumerate(steps):
            for _ in range(n):
                rows += [(top(i) if k == len(steps) - 1 and case["group"] else G2[i], float(sizes2[i]) * h / n) for i in range(nc)]

        check(mesh3.n_cells == N * nc, "{} cells instead of {}", mesh3.n_cells, N * nc)
        total = float(sizes2.sum())
        _, inner3, _ = verify(mesh3, 3, 1e-6, total * H, 2 * total + H * mod.boundary, dict(Counter(g for g, _ in rows)), "3D mesh", coarse=case["voronoi"])
        check(inner3 == inner * N + nc * (N - 1), "{} internal faces instead of {}", inner3, inner * N + nc * (N - 1))
        inner, mesh, dim = inner3, mesh3, 3
        con = call(pvg.get_connectivity, mesh)
        check(con.n_cells == inner3, "{} connections instead of {}", con.n_cells, inner3)

    if case["select"]:
        ud = dict(mesh.user_dict["CellGroup"])
        name = case["select"].lstrip("~")

        if name not in {g for g, _ in rows}:
            return

        mask = np.asarray(mesh.cell_data["CellGroup"]) == ud[name]
        mask = ~mask if case["select"].startswith("~") else mask

        if not mask.any():
            return

        sel = call(pvg.extract_cells, mesh, mask)
        rows = [r for r in rows if (r[0] == name) != case["select"].startswith("~")]
        verify(sel, dim, 1e-6, sum(s for _, s in rows), None, dict(Counter(g for g, _ in rows)), "selection", coarse=case["voronoi"])
        mesh = sel

    if case["final"] == "quadratic":
        if case["voronoi"]:
            return

        try:
            q = call(pvg.quadraticize, mesh)

        except NotImplementedError:
            return

        check(q.n_cells == mesh.n_cells and sum(geo.cell_sizes(mesh)) > 0, "quadratic cells")
        check(geo.close(np.asarray(call(pvg.get_cell_centers, mesh), float), np.array([np.asarray(q.points, float)[q.get_cell(i).point_ids[: len(geo.cell_point_ids(t, c))]].mean(axis=0) for i, (t, c) in enumerate(geo.cells_of(mesh))]), 1e-5), "corners of quadratic cells")

    elif case["final"] == "remap":
        m = call(pvg.remap_categorical_data, mesh, "CellGroup", {"Core": 77} if "Core" in {g for g, _ in rows} else {})
        verify(m, dim, 1e-6, sum(s for _, s in rows), None, dict(Counter(g for g, _ in rows)), "remapped", coarse=case["voronoi"])

    elif case["final"] == "merge":  # with a copy next to it
        w = np.ptp(np.asarray(mesh.points)[:, 0]) + 1.0
        m = call(pvg.merge, [mesh, mesh.translate((w, 0.0, 0.0))])
        verify(m, dim, 1e-6, 2 * sum(s for _, s in rows), None, None, "merged copies", coarse=case["voronoi"])
        check(m.n_cells == 2 * len(rows), "{} cells instead of {}", m.n_cells, 2 * len(rows))

    elif case["final"] == "dimension":
        check(call(pvg.get_dimension, mesh) == dim, "dimension")
        m = call(pvg.extract_cells_by_dimension, mesh, dim)
        verify(m, dim, 1e-6, sum(s for _, s in rows), None, dict(Counter(g for g, _ in rows)), "cells by dimension", coarse=case["voronoi"])

    elif case["final"] == "ids":
        g = np.asarray(call(pvg.get_cell_group, mesh))
        check(g.tolist() == [r[0] for r in rows], "group names of the cells")

    rec.outcome(mesh.n_cells, mesh.n_points, dim)


def run_example(case, rec):
    from pvgridder import examples

    fn = getattr(examples, "load_" + case["name"])
    mesh = rec.call(fn, *([] if case["arg"] is None else [case["arg"]]))
    rec.outcome(case["name"], mesh.n_cells, mesh.n_points)

    if case["name"] == "well_2d":
        verify(mesh, 2, 2e-4, 400.0, 80.0, None, "well")

    elif case["name"] == "well_3d":
        n = 16 * 2
        a = sector_area(0.445, n / 4) * 4
        verify(mesh, 3, 1e-4, 12000.0 + 3 * a, None, None, "well")

    elif case["name"].startswith("anticline"):
        base = 3.4 * 6.28  # the plane top cuts the folded layers
        d3 = case["name"].endswith("3d")
        verify(mesh, 3 if d3 else 2, 1e-5, base * (6.28 if d3 else 1.0), None, None, "anticline", layered=True)

    elif case["name"] == "concave_polyhedron":
        check(mesh.n_cells == 1, "{} cells", mesh.n_cells)
        verify(mesh, 3, 1e-6, 5.0 + 6.0, 2 * 11.0 + 24.0, None, "polyhedron")

    else:
        n = 16 if case["arg"] is None else case["arg"]
        a = 0.5 * n * np.sin(np.pi / n) + 2.0
        p = n * 2 * np.sin(0.5 * np.pi / n) + 4.0
        check(mesh.n_cells == 1, "{} cells", mesh.n_cells)
        verify(mesh, 3, 1e-6, a, 2 * a + p, None, "half stadium")
