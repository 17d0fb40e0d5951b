"""
Deviation-bounded product of surface (structured/uniform/rectilinear grids in the three orientations, all
supported unstructured cell types, both windings, concave and collinear polygons, mixed cells) x frame x
top surface (offset, taper, full and partial collapse) x resolution/method x attached data. Each case
extrudes with the real code and compares every cell (nodes by coordinates, face set, layer/column
position, data, ghost flag) with a reference; polyhedron faces are checked for outward normals.
"""

import numpy as np
import pyvista as pv

from .. import geo, model
from ..core import check

ID = "C03"
PROPERTY = dict(
    title="Volumes between two surfaces are exact extrusions with repeated data",
    statement=(
        "Volume(surface_a, surface_b, resolution, method) returns one layer of cells per subdivision with nodes "
        "a + t_j * (b - a): a structured, uniform or rectilinear surface gives a structured grid subdivided along its "
        "flat index axis, an unstructured or PolyData surface gives wedges for triangles, hexahedra for quads and "
        "pixels (lower nodes in order, then the matching upper ones) and polyhedra for polygons, layer by layer in the "
        "cell order of surface_a, faces of polyhedra pointing outwards whatever the winding, shape (concave, collinear "
        "vertices) and direction of extrusion. Point and cell data of surface_a, including existing ghost flags, are "
        "repeated on every node and cell of the column, and columns without thickness, and only those, are set to "
        "vtkGhostType 32. Surfaces that differ in type, size or cell types, structured surfaces that are not 2D and "
        "unsupported cell types raise ValueError."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every surface type, orientation, winding, cell type mix, top surface shape, resolution, method and attached data",
    ),
    why_tests_cant="The tests extrude a handful of meshes once and compare sums of volumes; data placement, face "
    "orientation, collapsed columns and the structured orientations are not looked at.",
    files=["pvgridder/core/_helpers.py", "pvgridder/core/geometric_objects.py"],
    mechanism=[
        dict(name="structured extrusion along the flat axis", where="core/_helpers.py generate_volume_from_two_surfaces, repeat_structured_data"),
        dict(name="unstructured extrusion and polyhedron orientation", where="core/_helpers.py generate_volume_from_two_surfaces"),
    ],
    level_note="Surfaces of 1 to 6 cells; coordinates compared to 1e-6 relative. Thicknesses are either exactly zero or "
    "large with respect to rounding.",
)
ASSUMPTIONS = ["Columns are either exactly collapsed or thicker than 1e-3 of the coordinate range"]

STRUCT = ["s.1x1", "s.2x1", "s.1x2", "s.2x3", "image", "rect"]
UNSTR = ["tri", "quad", "pixel", "pent", "pentcw", "collinear", "collinearcw", "concave", "concavecw", "mixed", "polydata", "tricw"]
RES = [2, None, 1, 3, [0.0, 0.25, 1.0], [0.2, 0.9, 0.6]]
TOP = ["offset", "oblique", "down", "scaled", "taper", "collapse1", "collapse_all", "twist"]
DATA = ["all", "none", "ghost"]


def gen(ctx):
    s = ctx.choose("surface", STRUCT + UNSTR, free=True)

    return dict(
        surface=s,
        axis=ctx.choose("axis", [2, 1, 0], free=s in STRUCT),
        top=ctx.choose("top", TOP, free=True),
        res=ctx.choose("res", RES),
        method=ctx.choose("method", model.METHODS),
        data=ctx.choose("data", DATA),
        far=ctx.choose("far", [0, 1]),
    )


ERR = ["npoints", "type", "dims_s", "dim1", "dim3", "line", "tetra", "vertex", "celltypes", "quadratic"]


def gen_err(ctx):
    return dict(err=ctx.choose("err", ERR, free=True), swap=ctx.choose("swap", [0, 1], free=True))


def gen_far(ctx):
    return dict(known=ctx.choose("k", ["quads at x=500000 extruded by (1, 0, 0)"], free=True))


def spaces(tier):
    return [
        ("volume", gen, 2 if tier == "quick" else None),
        ("errors", gen_err, None),
        ("far", gen_far, None),
    ]


POLY = {
    "tri": ([(0, 0), (1, 0), (1, 1), (0, 1), (2, 0.5)], [[0, 1, 2], [0, 2, 3], [1, 4, 2]]),
    "quad": ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2.5, 1)], [[0, 1, 4, 3], [1, 2, 5, 4]]),
    "pixel": ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], [[0, 1, 3, 4], [1, 2, 4, 5]]),
    "pent": ([(0, 0), (2, 0), (3, 1), (1, 2), (-1, 1), (5, 0), (5, 2)], [[0, 1, 2, 3, 4], [1, 5, 6, 2]]),
    "collinear": ([(0, 0), (1, 0), (2, 0), (2, 1), (1, 2), (0, 1)], [[0, 1, 2, 3, 4, 5]]),
    "concave": ([(1, 1), (2, 0), (2, 3), (0, 3), (0, 0)], [[4, 0, 1, 2, 3]]),
}


def unstructured(kind):
    cw = kind.endswith("cw")
    k = kind[:-2] if cw else kind

    if k == "mixed":
        pts = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2.5, 1), (0.5, 2), (3, 2), (2, 3), (1, 3)]
        cells = [[0, 1, 4, 3], [3, 4, 6], [1, 2, 5, 4], [4, 5, 7, 8, 9, 6]]
        types = [9, 5, 9, 7]

    elif k == "polydata":
        pts = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2.5, 1), (0.5, 2), (3, 2), (2, 3), (1, 3)]
        cells = [[3, 4, 6], [0, 1, 4, 3], [4, 5, 7, 8, 9, 6]]
        types = [5, 9, 7]

    else:
        pts, cells = POLY[k]
        types = [{"tri": 5, "quad": 9, "pixel": 8, "pent": 7, "collinear": 7, "concave": 7}[k]] * len(cells)

        if k == "concave":  # start at the reflex corner
            cells = [[4, 0, 1, 2, 3]]
            cells = [cells[0][4:] + cells[0][:4]]

    if cw:
        cells = [c[::-1] for c in cells]

    return np.array(pts, dtype=float), cells, types


def frame(u, v, w, axis):
    """Map (in-plane, in-plane, normal) to x, y, z, as a rotation."""
    out = np.zeros((len(u), 3))
    a, b = {2: (0, 1), 1: (2, 0), 0: (1, 2)}[axis]
    out[:, a], out[:, b], out[:, axis] = u, v, w

    return out


def build(kind, axis, far):
    """Surface mesh and its normal axis."""
    x0 = np.array([12.0, -7.0, 3.0]) if far else np.zeros(3)

    if kind in STRUCT:
        n = {"s.1x1": (1, 1), "s.2x1": (2, 1), "s.1x2": (1, 2), "s.2x3": (2, 3), "image": (2, 2), "rect": (2, 2)}[kind]

        if kind == "image":
            dims = [n[0] + 1, n[1] + 1]
            dims.insert(axis, 1)
            return pv.ImageData(dimensions=dims, spacing=(0.5, 1.25, 0.75), origin=x0)

        g = geo.grid2d(*n, axis=axis, x0=x0)

        if kind == "rect":
            c = [np.unique(np.asarray(g.points)[:, i]) for i in range(3)]
            return pv.RectilinearGrid(*c)

        p = np.array(g.points, dtype=float)
        i, j = geo.axes_of(axis)
        p[:, i] += 0.125 * p[:, j]
        p[:, axis] += 0.0625 * p[:, i] * p[:, j] * (not far)
        g.points = p

        return g

    pts, cells, types = unstructured(kind)
    p = frame(pts[:, 0], pts[:, 1], 0.0625 * pts[:, 0] * (not far), axis) + x0

    if kind == "polydata":
        return pv.PolyData.from_irregular_faces(p, cells)

    flat = np.concatenate([[len(c), *c] for c in cells])

    return pv.UnstructuredGrid(flat, types, p)


def top_points(p, case, cells):
    ax = case["axis"]
    n = np.zeros(3)
    n[ax] = 1.0
    q = p.copy()
    t = case["top"]

    if t == "offset":
        q = p + 2.0 * n

    elif t == "oblique":
        v = np.array([0.5, -0.25, 0.375])
        v[ax] = 1.5
        q = p + v

    elif t == "down":
        q = p - 1.25 * n

    elif t == "scaled":
        q = (p - p.mean(axis=0)) * 0.5 + p.mean(axis=0) + 2.0 * n

    elif t == "twist":
        q = p + n * (1.0 + 0.125 * np.arange(len(p)))[:, None]

    elif t == "taper":
        q = p + n * np.where(np.arange(len(p)) == cells[0][0], 0.0, 1.5)[:, None]

    elif t == "collapse1":
        h = np.full(len(p), 1.5)
        h[cells[0]] = 0.0
        q = p + n * h[:, None]

    return q


def run(case, rec):
    import pvgridder as pvg

    if "err" in case:
        return run_err(case, rec, pvg)

    if "known" in case:
        g = pvg_quads()
        g.points = np.array(g.points, dtype=float) + [5.0e5, 0, 0]
        h = g.copy()
        h.points = np.array(g.points) + [1.0, 0, 0]
        m = rec.call(pvg.Volume, g, h)
        rec.state("far")
        check((np.asarray(m.cell_data["vtkGhostType"]) == 0).all(), "cells of thickness 1 at x=500000 are flagged as collapsed")
        return

    a = build(case["surface"], case["axis"], case["far"])
    pa = np.array(a.points, dtype=float)
    acells = geo.cells_of(a)
    loops = [geo.boundary_loops(t, c) for t, c in acells]
    pb = top_points(pa, case, loops)
    b = a.cast_to_structured_grid() if case["surface"] in ("image", "rect") and case["top"] in ("scaled", "taper", "collapse1", "twist", "oblique") else a.copy()

    if isinstance(b, (pv.ImageData,)):
        o = np.array(b.origin, dtype=float)
        b.origin = o + (pb - pa)[0]

    elif isinstance(b, pv.RectilinearGrid):
        d = (pb - pa)[0]
        b = pv.RectilinearGrid(*[np.unique(pa[:, i]) + d[i] for i in range(3)])

    else:
        b.points = pb

    npts, nc = len(pa), len(acells)
    pd, cd = {}, {}

    if case["data"] == "all":
        k, c = np.arange(npts), np.arange(nc)
        pd = {"p": k * 0.5 - 1.0, "pv": np.column_stack((k, k**2, -k)).astype(float)}
        cd = {"c": c * 10.0 + 1.0, "cv": np.column_stack((c, c * 3 + 1)), "i": c * 7 + 2, "b": c % 2 == 0}

    elif case["data"] == "ghost":
        cd = {"vtkGhostType": np.where(np.arange(nc) % 2 == 0, 0, 32).astype(np.uint8), "c": np.arange(nc) + 0.5}

    for k, v in pd.items():
        a.point_data[k] = v

    for k, v in cd.items():
        a.cell_data[k] = v

    mesh = rec.call(pvg.Volume, a, b, case["res"], case["method"])
    t = model.perc(case["res"], case["method"])
    m = len(t)
    pts = np.asarray(mesh.points, dtype=float)
    ghost = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else None
    check(ghost is not None, "no ghost flags")
    check(mesh.n_cells == nc * (m - 1), "{} cells instead of {}", mesh.n_cells, nc * (m - 1))
    check(set(mesh.point_data.keys()) == set(pd), "point data {}", list(mesh.point_data.keys()))
    check(set(mesh.cell_data.keys()) == set(cd) | {"vtkGhostType"}, "cell data {}", list(mesh.cell_data.keys()))
    mcells = geo.cells_of(mesh)
    collapsed = [bool(np.all(pa[l] == pb[l])) for l in loops]
    structured = not isinstance(a, (pv.UnstructuredGrid, pv.PolyData))

    if structured:
        check(isinstance(mesh, pv.StructuredGrid), "not a structured grid")
        dims = list(a.dimensions)
        ax = case["axis"]
        check(dims[ax] == 1, "harness")
        mdims = list(dims)
        mdims[ax] = m
        check(list(mesh.dimensions) == mdims, "dimensions {} instead of {}", list(mesh.dimensions), mdims)
        cd_a = [max(1, n - 1) for n in dims]
        cd_m = [max(1, n - 1) for n in mdims]
        pos = {}

        for k in range(cd_m[2]):
            for j in range(cd_m[1]):
                for i in range(cd_m[0]):
                    ijk = [i, j, k]
                    layer = ijk[ax]
                    ijk[ax] = 0
                    col = ijk[0] + cd_a[0] * (ijk[1] + cd_a[1] * ijk[2])
                    pos[i + cd_m[0] * (j + cd_m[1] * k)] = (layer, col)

        pmap = {}

        for k in range(mdims[2]):
            for j in range(mdims[1]):
                for i in range(mdims[0]):
                    ijk = [i, j, k]
                    layer = ijk[ax]
                    ijk[ax] = 0
                    pmap[i + mdims[0] * (j + mdims[1] * k)] = (layer, ijk[0] + dims[0] * (ijk[1] + dims[1] * ijk[2]))

        ref = np.array([pa[i] + t[j] * (pb[i] - pa[i]) for j, i in (pmap[g] for g in range(len(pmap)))])
        check(geo.close(pts, ref), "node coordinates differ from the extrusion")

        for k, v in pd.items():
            vref = v[[pmap[g][1] for g in range(len(pmap))]]
            got = np.asarray(mesh.point_data[k])
            check(got.shape == vref.shape and geo.close(got, vref), "point data '{}' misplaced", k)

    else:
        check(isinstance(mesh, pv.UnstructuredGrid), "not an unstructured grid")
        pos = {g: (g // nc, g % nc) for g in range(mesh.n_cells)}

        for g, (layer, col) in pos.items():
            at = acells[col][0]
            mt, mc = mcells[g]
            want = {5: 13, 9: 12, 8: 12, 7: 42}[at]
            check(mt == want, "cell {} has type {} instead of {}", g, mt, want)
            lo = [pa[i] + t[layer] * (pb[i] - pa[i]) for i in loops[col]]
            hi = [pa[i] + t[layer + 1] * (pb[i] - pa[i]) for i in loops[col]]
            n = len(lo)

            if mt != 42:
                check(len(mc) == 2 * n and geo.close(pts[mc], np.array(lo + hi)), "nodes of cell {} (type {})", g, mt)
                low_ids, high_ids = mc[:n], mc[n:]

            else:
                # the base face is the one made of the lower nodes
                ids = geo.cell_point_ids(mt, mc)
                check(len(ids) == 2 * n and len(mc) == n + 2, "polyhedron {} has {} nodes and {} faces", g, len(ids), len(mc))
                caps = [f for f in mc if len(f) == n and geo.close(pts[f][_rot(pts[f], lo)], np.array(lo))]
                check(len(caps) >= 1, "polyhedron {} has no base face", g)
                low_ids = None

                for cap in caps:
                    lows = [cap[k] for k in _rot(pts[cap], lo)]
                    highs, faces = [], [frozenset(f) for f in mc]

                    for i in lows:
                        # the upper neighbour shares all lateral faces of the lower node
                        lat = [f for f in mc if i in f and set(f) != set(cap)]
                        nb = [j for j in ids if j not in lows and sum(j in f for f in lat) == 2]
                        highs.append(nb[0] if len(nb) == 1 else -1)

                    exp = {frozenset(lows), frozenset(highs)} | {
                        frozenset((lows[k], lows[(k + 1) % n], highs[k], highs[(k + 1) % n])) for k in range(n)
                    }

                    if -1 not in highs and set(faces) == exp and geo.close(pts[highs], np.array(hi)):
                        low_ids, high_ids = lows, highs
                        break

                check(low_ids is not None, "faces of polyhedron {} do not form the prism", g)

                if not collapsed[col]:
                    # consistent orientation: every edge is used once in each direction
                    edges = [(f[k], f[(k + 1) % len(f)]) for f in mc for k in range(len(f))]
                    check(len(set(edges)) == len(edges) and all((q, p) in set(edges) for p, q in edges), "faces of polyhedron {} are not consistently oriented", g)
                    check(geo.signed_volume(pts, mc) > 0.0, "faces of polyhedron {} point inwards", g)

            for k, v in pd.items():
                got = np.asarray(mesh.point_data[k])
                vref = v[loops[col]]
                check(geo.close(got[low_ids], vref) and geo.close(got[high_ids], vref), "point data '{}' misplaced", k)

        check(mesh.n_points == npts * m, "{} nodes instead of {}", mesh.n_points, npts * m)

    for g, (layer, col) in pos.items():
        gref = 32 if collapsed[col] else int(cd["vtkGhostType"][col]) if "vtkGhostType" in cd else 0
        check(ghost[g] == gref, "ghost flag of cell {} is {} instead of {}", g, int(ghost[g]), gref)

        for k, v in cd.items():
            if k != "vtkGhostType":
                got = np.asarray(mesh.cell_data[k])
                check(got.shape == (mesh.n_cells, *v.shape[1:]) and geo.close(got[g], v[col]), "cell data '{}' misplaced", k)

    rec.state(case["surface"], case["axis"], pts, ghost)
    rec.outcome(tuple(sorted({c[0] for c in mcells})), mesh.n_cells, int((ghost == 32).sum()))


def _rot(p, ref):
    """Indices of *p* matching *ref* (same loop, any start and direction), or the identity."""
    n, ref = len(p), np.array(ref)

    if n == len(ref):
        for o in (list(range(n)), list(range(n))[::-1]):
            for s in range(n):
                idx = o[s:] + o[:s]

                if geo.close(p[idx], ref):
                    return idx

    return list(range(n))


def pvg_quads():
    pts, cells, types = unstructured("quad")
    p = frame(pts[:, 0], pts[:, 1], np.zeros(len(pts)), 0)

    return pv.UnstructuredGrid(np.concatenate([[len(c), *c] for c in cells]), types, p)


def run_err(case, rec, pvg):
    e = case["err"]
    up = lambda m: m.translate((0.0, 0.0, 1.0))
    s = geo.grid2d(2, 2)
    u = s.cast_to_unstructured_grid()

    if e == "npoints":
        a, b = s, geo.grid2d(2, 3)

    elif e == "type":
        a, b = s, up(u)

    elif e == "dims_s":
        a, b = geo.grid2d(1, 5), geo.grid2d(2, 3)  # 12 points each

    elif e == "dim1":
        x = np.arange(4.0)
        a = pv.StructuredGrid(x[:, None, None], 0 * x[:, None, None], 0 * x[:, None, None])
        b = up(a)

    elif e == "dim3":
        a = pv.ImageData(dimensions=(2, 3, 2)).cast_to_structured_grid()
        b = up(a)

    elif e == "line":
        a = pv.UnstructuredGrid([2, 0, 1, 2, 1, 2], [3, 3], np.array([[0.0, 0, 0], [1, 0, 0], [2, 0, 0]]))
        b = up(a)

    elif e == "tetra":
        a = pv.UnstructuredGrid([4, 0, 1, 2, 3], [10], np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]))
        b = up(a)

    elif e == "vertex":
        a = pv.UnstructuredGrid([1, 0, 1, 1], [1, 1], np.array([[0.0, 0, 0], [1, 0, 0]]))
        b = up(a)

    elif e == "quadratic":
        p = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0.5, 0, 0], [0.5, 0.5, 0], [0, 0.5, 0]])
        a = pv.UnstructuredGrid([6, 0, 1, 2, 3, 4, 5], [22], p)
        b = up(a)

    else:
        p, c, t = unstructured("quad")
        p = frame(p[:, 0], p[:, 1], 0 * p[:, 0], 2)
        a = pv.UnstructuredGrid([4, 0, 1, 4, 3, 4, 1, 2, 5, 4], [9, 9], p)
        b = up(pv.UnstructuredGrid([4, 0, 1, 4, 3, 4, 1, 2, 5, 4], [9, 7], p))

    if case["swap"]:
        a, b = b, a

    rec.state(e, case["swap"])
    rec.raises(ValueError, pvg.Volume, a, b)
    rec.outcome(e)
