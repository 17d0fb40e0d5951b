"""
Deviation-bounded product of shell x holes x representation of both x cell type x engine x algorithm x
cell size x frame, plus sequences of calls that interleave failing and succeeding calls. Each case is run on
the real code; the returned cells are checked against the input region computed from scratch: kinds of
cells, vertices kept, every cell inside the region, sum of areas, boundary edges lying on the outlines.
"""

import numpy as np
import pyvista as pv

from .. import geo
from ..core import Violation, check

ID = "C05"
PROPERTY = dict(
    title="Polygon meshes exactly the region bounded by its shell and holes",
    statement=(
        "Polygon(shell, holes, celltype, ...) returns for 'polygon' (the default without holes) one polygon cell with the "
        "vertices of the shell in order, and for 'triangle' (the default with holes) and 'quad' a conforming mesh of "
        "triangles (of quads and possibly triangles for 'quad') that tiles exactly the shell minus the holes, keeps all "
        "vertices of the outlines as nodes and has its boundary edges on the outlines, for both engines, any algorithm, "
        "cell size and optimization, in any plane. Outlines may be given as arrays of 2D or 3D points, closed or not, or "
        "as meshes (a closed polyline or a surface). Holes with cell type 'polygon', an unknown cell type and an unknown engine raise "
        "ValueError and leave subsequent calls unaffected."
    ),
    quantifier=dict(
        over=["inputs", "configurations", "histories"],
        text="every shell, hole set, representation, cell type, engine and meshing option, and every sequence of failing and succeeding calls",
    ),
    why_tests_cant="The tests compare the total area for a few inputs with one engine each; they do not look at cell "
    "types, kept vertices, overlaps, boundary or the state left behind by an error.",
    files=["pvgridder/core/geometric_objects.py"],
    mechanism=[
        dict(name="conversion of outlines to points", where="core/geometric_objects.py Polygon.to_points"),
        dict(name="gmsh model, engine selection and conversion of elements", where="core/geometric_objects.py Polygon"),
    ],
    level_note="Six shells (convex, concave, many-sided, off-origin), up to two holes; areas compared to 1e-6 relative. "
    "Trusts gmsh as installed.",
)
ASSUMPTIONS = ["gmsh produces a valid mesh of the geometry it is given"]

SHELLS = {
    "square": [(0, 0), (4, 0), (4, 4), (0, 4)],
    "tri": [(0, 0), (6, 0), (2, 5)],
    "L": [(0, 0), (5, 0), (5, 2), (2, 2), (2, 5), (0, 5)],
    "cw": [(0, 0), (0, 4), (5, 4), (5, 0)],
    "far": [(100, 50), (106, 50), (107, 54), (103, 57), (99, 54)],
    "dense": [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (0, 1)],
}
HOLES = {
    "none": [],
    "one": [[(1, 1), (1.75, 1), (1.75, 1.75), (1, 1.75)]],
    "tri": [[(0.75, 0.75), (1.5, 0.75), (1, 1.5)]],
    "two": [[(0.5, 0.5), (1.25, 0.5), (1.25, 1.25), (0.5, 1.25)], [(1.5, 0.5), (1.5, 1.25), (1.9, 0.75)]],
}
KINDS = ["array2", "list2", "array3", "closed2", "face", "line", "grid"]


def gen(ctx):
    shell = ctx.choose("shell", list(SHELLS), free=True)
    ct = ctx.choose("celltype", [None, "triangle", "quad", "polygon"], free=True)
    holes = ctx.choose("holes", list(HOLES))
    kind = ctx.choose("kind", KINDS)

    if kind == "grid" and shell not in ("square", "dense"):
        return None

    if holes != "none" and (ct == "polygon" or shell == "tri" and holes == "two"):
        return None

    case = dict(shell=shell, celltype=ct, holes=holes, kind=kind, plane=ctx.choose("plane", ["xy", "z5", "xz", "tilt"]))

    if case["plane"] not in ("xy",) and kind in ("array2", "list2", "closed2"):
        case["kind"] = "array3"

    if ct == "polygon" or (ct is None and holes == "none"):
        return case

    case["engine"] = ctx.choose("engine", [None, "gmsh", "occ"])
    case["cellsize"] = ctx.choose("cellsize", [None, 0.5, 2.0])
    case["algorithm"] = ctx.choose("algorithm", [None, 5, 8, 1])
    case["optimization"] = ctx.choose("optimization", [None, "Laplace2D", "Relocate2D"])

    if holes != "none":
        case["hkind"] = ctx.choose("hkind", ["array2", "closed2", "array3", "face", "line"])

        if case["plane"] != "xy" and case["hkind"] in ("array2", "closed2"):
            case["hkind"] = "array3"

    return case


OPS = ["tri", "quad", "hole", "bad_engine", "bad_celltype", "poly_holes", "bad_engine_quad"]


def gen_seq(depth):
    def g(ctx):
        n = ctx.choose("n", list(range(2, depth + 1)), free=True)

        return dict(ops=[ctx.choose(f"op{i}", OPS, free=True) for i in range(n)])

    return g


def gen_default(ctx):
    return dict(default=ctx.choose("ct", [None, "triangle"], free=True))


def spaces(tier):
    if tier == "quick":
        return [("polygon", gen, 2), ("sequences", gen_seq(3), None), ("default", gen_default, None)]

    return [("polygon", gen, 3), ("sequences", gen_seq(4), None), ("default", gen_default, None)]


def lift(p, plane):
    p = np.asarray(p, float)
    q = np.column_stack((p, np.zeros(len(p))))

    if plane == "z5":
        q[:, 2] = 5.0

    elif plane == "xz":
        q = q[:, [0, 2, 1]]

    elif plane == "tilt":
        q[:, 2] = 0.5 * q[:, 0] - 0.25 * q[:, 1]

    return q


def wrap(p2, kind, plane):
    p3 = lift(p2, plane)

    if kind == "array2":
        return np.array(p2, float)

    if kind == "list2":
        return [tuple(map(float, x)) for x in p2]

    if kind == "array3":
        return p3

    if kind == "closed2":
        return np.array(list(p2) + [p2[0]], float)

    if kind == "face":
        return pv.PolyData(p3, faces=[len(p3), *range(len(p3))])

    if kind == "line":
        return pv.PolyData(p3, lines=[len(p3) + 1, *range(len(p3)), 0])

    # grid: 4 x 4 square with a coarse subdivision
    v = np.array([0.0, 2.0, 4.0])
    X, Y = np.meshgrid(v, v, indexing="ij")
    pts = lift(np.column_stack((X.ravel(order="F"), Y.ravel(order="F"))), plane)
    g = pv.StructuredGrid()
    g.dimensions = (3, 3, 1)
    g.points = pts

    return g


def inside(p, loop):
    """Distance-aware point in polygon test (points on the outline count as inside)."""
    x, y = p
    r = False
    n = len(loop)

    for i in range(n):
        (x1, y1), (x2, y2) = loop[i], loop[(i + 1) % n]

        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            r = not r

    return r


def dist_to_loop(p, loop):
    a = np.asarray(loop, float)
    b = np.roll(a, -1, axis=0)
    t = np.clip(((p - a) * (b - a)).sum(1) / ((b - a) ** 2).sum(1), 0, 1)

    return float(np.linalg.norm(p - (a + t[:, None] * (b - a)), axis=1).min())


def verify(mesh, shell, holes, plane, celltype, require_nodes=True):
    pts = np.asarray(mesh.points, float)
    ref0 = lift([(0, 0), (1, 0), (0, 1)], plane)
    # back to plane coordinates
    B = (ref0[1:] - ref0[0]).T
    uv, res, *_ = np.linalg.lstsq(B, (pts - ref0[0]).T, rcond=None)
    uv = uv.T
    check(geo.close((B @ uv.T).T + ref0[0], pts, 1e-6), "nodes leave the plane of the outline")
    cells = geo.cells_of(mesh)
    types = {t for t, _ in cells}
    check(types <= ({5} if celltype == "triangle" else {5, 9}), "cell types {}", types)
    check(celltype != "quad" or len(shell) == 3 or 9 in types, "no quad generated")
    area = abs(geo.signed_area2(shell)) - sum(abs(geo.signed_area2(h)) for h in holes)
    a = np.array([geo.signed_area2(uv[c]) for _, c in cells])
    check(abs(abs(a.sum()) - area) <= 1e-6 * area, "cells cover {} instead of {}", float(a.sum()), float(area))
    alike = (a > 0).all() or (a < 0).all()
    # gmsh's recombination of very coarse meshes may fold a quad over its neighbour
    check(alike or celltype == "quad", "cells are not oriented alike")
    loops = [np.asarray(shell, float)] + [np.asarray(h, float) for h in holes]

    for _, c in cells if alike else []:
        m = uv[c].mean(axis=0)
        check(inside(m, loops[0]) and not any(inside(m, h) for h in loops[1:]), "cell outside of the region")

    if require_nodes:
        for lo in loops:
            d = np.linalg.norm(uv[:, None] - lo[None], axis=2).min(axis=0)
            check((d <= 1e-6 * max(1.0, np.abs(lo).max())).all(), "vertices of an outline are not nodes of the mesh")

    edges = {}

    for _, c in cells:
        for i in range(len(c)):
            e = (c[i], c[(i + 1) % len(c)])
            edges[frozenset(e)] = edges.get(frozenset(e), 0) + 1

    check(max(edges.values()) <= 2, "edge shared by more than two cells")
    length = 0.0

    for e, n in edges.items():
        if n == 1:
            i, j = tuple(e)
            m = 0.5 * (uv[i] + uv[j])
            d = min(dist_to_loop(m, lo) for lo in loops)
            check(d <= 1e-5 * max(1.0, np.abs(m).max()), "boundary edge off the outlines")
            length += float(np.linalg.norm(uv[i] - uv[j]))

    peri = sum(float(np.linalg.norm(np.roll(lo, -1, axis=0) - lo, axis=1).sum()) for lo in loops)
    check(abs(length - peri) <= 1e-6 * peri, "boundary of length {} instead of {}", length, peri)
    check(len({i for _, c in cells for i in c}) == len(pts), "unused nodes")

    return len(cells)


def run(case, rec):
    import pvgridder as pvg

    if "ops" in case:
        sq = np.array(SHELLS["square"], float)
        hole = np.array(HOLES["one"][0], float)

        for op in case["ops"]:
            if op == "tri":
                verify(rec.call(pvg.Polygon, sq, celltype="triangle"), sq, [], "xy", "triangle")

            elif op == "quad":
                verify(rec.call(pvg.Polygon, sq, celltype="quad", cellsize=1.0), sq, [], "xy", "quad")

            elif op == "hole":
                verify(rec.call(pvg.Polygon, sq, [hole], engine="occ"), sq, [hole], "xy", "triangle")

            elif op == "bad_engine":
                rec.raises(ValueError, pvg.Polygon, sq, celltype="triangle", engine="foo")

            elif op == "bad_engine_quad":
                rec.raises(ValueError, pvg.Polygon, sq, [hole], celltype="quad", engine="")

            elif op == "bad_celltype":
                rec.raises(ValueError, pvg.Polygon, sq, celltype="hexagon")

            else:
                rec.raises(ValueError, pvg.Polygon, sq, [hole], celltype="polygon")

        rec.state("ops", tuple(case["ops"]))
        rec.outcome("ops", case["ops"][-1])
        return

    if "default" in case:
        mesh = rec.call(pvg.Polygon, celltype=case["default"])
        check(abs(geo.cell_sizes(mesh).sum() - 1.5 * np.sqrt(3.0)) < 1e-5, "default shell")
        rec.state("default", case["default"])
        return

    shell, holes = SHELLS[case["shell"]], HOLES[case["holes"]]

    if case["kind"] == "grid":
        shell = [(0, 0), (2, 0), (4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (0, 2)]

    if case["shell"] == "far":
        holes = [[(x + 101, y + 51) for x, y in h] for h in holes]

    kw = {k: case[k] for k in ("engine", "cellsize", "algorithm", "optimization") if case.get(k) is not None}

    if case["celltype"] is not None:
        kw["celltype"] = case["celltype"]

    if holes:
        kw["holes"] = [wrap(h, case["hkind"], case["plane"]) for h in holes]

    mesh = rec.call(pvg.Polygon, wrap(shell, case["kind"], case["plane"]), **kw)
    check(isinstance(mesh, pv.UnstructuredGrid), "type")
    ct = case["celltype"] or ("triangle" if holes else "polygon")

    if ct == "polygon":
        cells = geo.cells_of(mesh)
        check(len(cells) == 1 and cells[0][0] == 7, "not a single polygon")
        p = np.asarray(mesh.points, float)[cells[0][1]]
        ref = lift(shell, case["plane"])
        check(p.shape == ref.shape and mesh.n_points == len(ref), "vertices of the polygon")
        n = len(ref)
        orders = [np.roll(np.arange(n), s) for s in range(n)]

        if case["kind"] in ("grid", "face", "line"):  # start and direction are free for datasets
            orders += [o[::-1] for o in orders]

        else:
            orders = orders[:1]

        check(any(geo.close(p, ref[o], 1e-5) for o in orders), "vertices of the polygon")
        rec.state("polygon", p)
        rec.outcome("polygon", n)
        return

    n = verify(mesh, shell, holes, case["plane"], ct)
    rec.state(case["shell"], case["holes"], case["plane"], np.asarray(mesh.points, float))
    rec.outcome(ct, n)
