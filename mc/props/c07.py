"""
Deviation-bounded product of stack dimension x base mesh x stacking axis x direction x sequences of items
(scalar, callable, array, any dataset, plane, transition; each with resolution, method, priority, thickness
and extrapolation). Each sequence is executed on the real builder and the generated mesh is compared node by
node (structured) or cell by cell (unstructured) with a reference stack that evaluates every item at every base
node, cuts consecutive items pairwise and subdivides the layers with explicit loops.
"""

import numpy as np
import pyvista as pv

from .. import geo, layers
from ..core import check
from ..model import METHODS

ID = "C07"
PROPERTY = dict(
    title="Stacked meshes have every layer between the right surfaces",
    statement=(
        "The mesh generated by MeshStack2D and MeshStack3D has, for each item after the first, its subdivisions between the "
        "surfaces of the previous item and of the item over every node of the base mesh, for any stacking axis and for both "
        "directions (bottom_up or not): a scalar shifts the previous item by its absolute value (first item: sets the "
        "coordinate), a callable, array or dataset gives the coordinate directly or by linear interpolation ('nearest' "
        "extrapolation outside, ValueError without), add_plane gives the plane dipping by the angles through the point. Where "
        "two consecutive items are closer than the thickness of the second, or cross, the one with the lower priority (the "
        "first one if equal) is moved so that they are exactly that thickness apart, layers without thickness being "
        "flagged as ghosts (vtkGhostType 32) and no other cell. set_transition makes the next layer of a "
        "2D stack a conforming triangulation between the previous line and the item on the new base line, on which later items are built."
    ),
    quantifier=dict(
        over=["inputs", "configurations", "histories"],
        text="every base mesh, axis, direction and sequence of items with every combination of kind, resolution, method, priority, thickness and extrapolation",
    ),
    why_tests_cant="The repository has no test of the stack classes besides what examples run; crossing surfaces, priorities, "
    "axes and directions multiply into a space no example list covers.",
    files=["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/_helpers.py"],
    mechanism=[
        dict(name="item evaluation and interpolation", where="core/_base.py MeshStackBase.add, _interpolate; core/stack.py add_plane"),
        dict(name="pairwise cutting", where="core/_base.py MeshStackBase._generate_mesh"),
        dict(name="transition layers", where="core/stack.py MeshStack2D._transition, set_transition"),
    ],
    level_note="Bases of 1 to 6 cells, two to four items; interpolated datasets are affine or share the base nodes, so that the "
    "result does not depend on the triangulation. Coordinates compared to 1e-6 relative (1e-5 for uniform grids).",
)
ASSUMPTIONS = [
    "Base lines of 2D stacks are one polyline along a coordinate axis",
    "Items that cut through more than their neighbour are only explored in the space 'deep' (see KNOWN_FINDINGS.txt)",
]

RES = [None, 2, 3, [0.0, 0.4, 1.0]]
BASES3 = ["s2x1", "mixed", "tri", "s1x2", "image", "quad", "poly", "rect", "s3x2", "mixedcw", "one", "s1x1", "pixel"]
BASES2 = ["list", "polyline", "array", "desc", "two"]
ARG1 = ["scalar", "flat", "tilt", "grid"]
ARGS = ["scalar", "dip", "neg", "tilt", "touch", "bump", "grid", "array", "plane", "small", "image", "rect", "poly", "unstr", "nodes"]
ARGS2 = ["scalar", "dip", "neg", "tilt", "touch", "bump", "line", "array", "linedesc", "small", "nodes"]


def item(ctx, i, args):
    return dict(
        arg=ctx.choose(f"arg{i}", args),
        res=ctx.choose(f"res{i}", RES),
        method=ctx.choose(f"method{i}", METHODS),
        priority=ctx.choose(f"prio{i}", [0, 1, -1]),
        thickness=ctx.choose(f"thick{i}", [0.0, 0.75]),
    )


def gen3(bases, nmax):
    def g(ctx):
        case = dict(dim=3, base=ctx.choose("base", bases, free=True), up=ctx.choose("up", [True, False], free=True))
        case["axis"] = ctx.choose("axis", [2, 1, 0])
        case["first"] = dict(arg=ctx.choose("arg0", ARG1), priority=ctx.choose("prio0", [0, 1]))
        n = ctx.choose("n", [2, 1, 3][:nmax])
        case["items"] = [item(ctx, i, ARGS) for i in range(n)]

        return case

    return g


def gen2(bases, nmax):
    def g(ctx):
        case = dict(dim=2, base=ctx.choose("base", bases, free=True), up=ctx.choose("up", [True, False], free=True))
        case["axis"] = ctx.choose("axis", [2, 1, 0], free=True)
        case["first"] = dict(arg=ctx.choose("arg0", ["scalar", "flat", "tilt", "line"]), priority=ctx.choose("prio0", [0, 1]))
        n = ctx.choose("n", [2, 1, 3][:nmax])
        case["items"] = [item(ctx, i, ARGS2) for i in range(n)]

        return case

    return g


def gen_large(ctx):
    case = dict(dim=2, base="large", up=True, axis=ctx.choose("axis", [2, 1], free=True), first=dict(arg="scalar", priority=0))
    case["items"] = [dict(arg=ctx.choose(f"arg{i}", ["scalar", "tilt"], free=True), res=2, method=None, priority=0, thickness=0.0) for i in range(2)]

    return case


def gen_cut(dim, bases=("s2x1", "mixed")):
    """Every priority/thickness/crossing pattern of two items over the first one."""

    def g(ctx):
        case = dict(dim=dim, base=ctx.choose("base", list(bases) if dim == 3 else ["list"], free=True), axis=2)
        case["up"] = ctx.choose("up", [True, False], free=True)
        case["first"] = dict(arg="flat", priority=ctx.choose("prio0", [0, 1], free=True))
        case["items"] = []

        for i in range(2):
            case["items"].append(
                dict(
                    arg=ctx.choose(f"arg{i}", ["dip", "touch", "bump", "scalar"], free=True),
                    res=2 if i == 0 else None, method=None,
                    priority=ctx.choose(f"prio{i}", [0, 1, 2], free=True),
                    thickness=ctx.choose(f"thick{i}", [0.0, 0.5], free=True),
                )
            )

        return case

    return g


def gen_transition(ctx):
    case = dict(dim=2, base=ctx.choose("base", ["list", "polyline"], free=True), axis=ctx.choose("axis", [2, 1, 0], free=True))
    case["up"] = ctx.choose("up", [True, False], free=True)
    case["first"] = dict(arg=ctx.choose("arg0", ["flat", "tilt"]), priority=0)
    n = ctx.choose("n", [2, 3, 1])
    at = ctx.choose("at", list(range(n)), free=True)
    case["at"] = at
    case["new"] = ctx.choose("new", [2, 7, "line", 1], free=True)
    case["items"] = [
        dict(arg=ctx.choose(f"arg{i}", ["scalar", "tilt", "bump"] if i == at else ["scalar", "bump"]), res=2 if i != at else None,
             method=None, priority=0, thickness=0.0)
        for i in range(n)
    ]

    return case


def gen_deep(ctx):
    return dict(
        deep=ctx.choose("deep", ["third item below the first"], free=True),
        dim=ctx.choose("dim", [2, 3], free=True),
    )


ERR = ["empty", "one", "axis", "dim1", "dim3", "flat_axis", "array1", "array2cols", "outside", "extrapolation", "faces2", "outside2", "plane_ok"]


def gen_err(ctx):
    return dict(err=ctx.choose("err", ERR, free=True))


def spaces(tier):
    if tier == "quick":
        return [
            ("stack3d", gen3(BASES3[:2], 2), 2),
            ("stack3d-bases", gen3(BASES3[2:], 2), 1),
            ("stack2d", gen2(BASES2, 2), 1),
            ("cut3d", gen_cut(3, ["s2x1"]), None),
            ("cut2d", gen_cut(2), None),
            ("transition", gen_transition, 1),
            ("deep", gen_deep, None),
            ("large", gen_large, None),
            ("errors", gen_err, None),
        ]

    return [
        ("stack3d", gen3(BASES3[:4], 3), 3),
        ("stack3d-bases", gen3(BASES3[4:], 3), 2),
        ("stack2d", gen2(BASES2[:2], 3), 3),
        ("stack2d-bases", gen2(BASES2[2:], 3), 2),
        ("cut3d", gen_cut(3), None),
        ("cut2d", gen_cut(2), None),
        ("transition", gen_transition, None),
        ("deep", gen_deep, None),
        ("large", gen_large, None),
        ("errors", gen_err, None),
    ]


# --------------------------------------------------------------------------- items: argument and reference
def height(kind, level, s, u, v):
    """Height of surface *kind* over (u, v) for a nominal level; s is the stacking direction."""
    u, v = np.asarray(u, float), np.asarray(v, float)

    if kind in ("flat",):
        return np.full(u.shape, level)

    if kind in ("tilt", "grid", "array", "image_", "line", "linedesc", "poly", "unstr"):
        return level + 0.125 * u - 0.0625 * v

    if kind in ("image", "rect"):
        return np.full(u.shape, level)

    if kind == "dip":  # crosses the previous item for large u
        return level - s * 2.75 * (u + 0.25 * v > 1.1)

    if kind == "touch":  # meets the previous item for small u
        return level - s * 2.0 * (u < 1.5)

    if kind in ("bump", "nodes"):
        return level + 0.25 * np.sin(u) + 0.125 * v

    raise KeyError(kind)


def add(rec, stack, st, spec, i):
    """Add one item to the real stack and to the model."""
    s = 1.0 if st["up"] else -1.0
    axis = st["axis"]
    a, b = [k for k in range(3) if k != axis]
    pts = st["pts"]
    u, v = pts[:, a], pts[:, b]
    level = st["level"]
    kind = spec["arg"]
    new = pts.copy()
    kw = {}
    arg = None
    fn = stack.add

    if kind == "scalar" and i == 0:
        arg = level
        new[:, axis] = level

    elif kind in ("scalar", "neg"):
        arg = 2.0 if kind == "scalar" else -1.5
        prev = st["items"][-1].pts

        if st["transition"]:
            c = [k for k in range(3) if k != axis and np.ptp(prev[:, k]) > 0][0]
            o = np.argsort(prev[:, c])
            new[:, axis] = np.interp(pts[:, c], prev[o, c], prev[o, axis]) + s * abs(arg)

        else:
            new = prev.copy()
            new[:, axis] += s * abs(arg)

    elif kind == "plane":
        ang = np.array([7.0, -5.0, 4.0])
        point = np.array([1.0, 2.0, -1.0])
        point[axis] = level
        fn, arg = stack.add_plane, ang.tolist()
        w = ang.copy()
        w[axis] = 0.0
        e = np.zeros(3)
        e[axis] = 1.0
        th = np.deg2rad(np.linalg.norm(w))
        slope = np.cross(w / np.linalg.norm(w), e) * np.tan(th)
        d = pts - point
        d[:, axis] = 0.0
        new[:, axis] = level + d @ slope

    elif kind in ("flat", "tilt", "dip", "touch", "bump"):
        new[:, axis] = height(kind, level, s, u, v)
        w = pts[0, axis] if st["given"] else None  # callables get the points of the base mesh

        def arg(*q):
            return height(kind, level, s, q[a], q[b]) + (0.0 if w is None else 0.5 * (q[axis] - w))

    elif kind == "nodes":  # dataset on the nodes of the base mesh
        q = pts.copy()
        q[:, axis] = height(kind, level, s, u, v)
        new = q.copy()
        arg = pv.PolyData(q)
        kw["extrapolation"] = "nearest"

    elif st["dim"] == 2:
        c = [k for k in range(3) if k != axis and np.ptp(pts[:, k]) > 0][0]
        x = np.array([-1.0, 0.5, 2.0, 9.0]) if kind != "small" else np.array([0.5, 2.0])
        y = level + np.array([0.5, 0.0, 0.75, -0.25])[: len(x)]
        p = np.zeros((len(x), 3))
        p[:, c], p[:, axis] = x, y
        new[:, axis] = np.interp(pts[:, c], x, y)

        if kind == "small":
            kw["extrapolation"] = "nearest"
            arg = pv.lines_from_points(p)

        elif kind == "array":
            arg = p

        elif kind == "linedesc":
            arg = pv.PolyData(p[::-1].copy(), lines=[len(p), *range(len(p))])

        else:
            arg = pv.PolyData(p, lines=[len(p), *range(len(p))])

    else:
        gu, gv = np.array([-1.0, 1.25, 6.0]), np.array([-1.0, 2.0, 5.0])

        if kind == "small":
            gu, gv = np.array([-1.0, 1.6]), np.array([-1.0, 4.9])

        U, V = (q.ravel() for q in np.meshgrid(gu, gv, indexing="ij"))
        H = height("tilt" if kind == "small" else kind, level, s, U, V)
        p = np.zeros((len(U), 3))
        p[:, a], p[:, b], p[:, axis] = U, V, H
        new[:, axis] = height("tilt" if kind == "small" else kind, level, s, u, v)

        if kind == "small":
            out = u > 1.6
            dist = (u[:, None] - U[None]) ** 2 + (v[:, None] - V[None]) ** 2
            new[out, axis] = H[dist.argmin(axis=1)][out]
            arg = p
            kw["extrapolation"] = "nearest"

        elif kind == "array":
            arg = p[::-1].copy()

        elif kind == "grid":
            dims = [1, 1, 1]
            dims[a], dims[b] = 3, 3
            arg = pv.StructuredGrid()
            arg.dimensions = dims
            o = np.argsort(V * 100 + U, kind="stable") if a < b else np.arange(len(U))
            arg.points = p[o]

        elif kind == "image":
            dims, sp, org = [1, 1, 1], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0]
            dims[a], dims[b], sp[a], sp[b] = 3, 3, 3.5, 3.0
            org[a], org[b], org[axis] = -1.0, -1.0, level
            arg = pv.ImageData(dimensions=dims, spacing=sp, origin=org)

        elif kind == "rect":
            c = [None] * 3
            c[a], c[b], c[axis] = gu, gv, np.array([level])
            arg = pv.RectilinearGrid(*c)

        elif kind == "poly":
            arg = pv.PolyData(p)

        else:
            arg = pv.PolyData(p).cast_to_unstructured_grid()

    if i == 0:
        it = layers.Item(new, priority=spec["priority"])
        rec.call(fn, arg, *([point] if kind == "plane" else []), priority=spec["priority"], **kw)

    else:
        it = layers.Item(new, spec["res"], spec["method"], spec["priority"], spec["thickness"], st["transition"])
        rec.call(
            fn, arg, *([point] if kind == "plane" else []), resolution=spec["res"], method=spec["method"],
            priority=spec["priority"], thickness=spec["thickness"], **kw,
        )

    st["items"].append(it)
    st["transition"] = False
    st["level"] += s * 2.0


def line2d(kind, axis):
    """Base line of a 2D stack -> (argument, nodes)."""
    x = np.array([0.0, 1.0, 2.25, 3.0])

    if kind == "large":
        x = np.arange(1201) / 400.0

    if kind == "two":
        x = x[:2]

    if kind in ("list", "array", "two"):
        p = np.zeros((len(x), 3))
        p[:, (axis + 1) % 3] = x

        return (x.tolist() if kind != "array" else x), p

    p = np.zeros((len(x), 3))
    c = {0: 1, 1: 0, 2: 0}[axis]
    p[:, c] = x[::-1] if kind == "desc" else x
    p[:, [k for k in range(3) if k not in (c, axis)][0]] = 0.5
    p[:, axis] = 0.75

    return pv.PolyData(p, lines=[len(p), *range(len(p))]), p


def run(case, rec):
    import pvgridder as pvg

    if "err" in case:
        return run_err(pvg, case["err"], rec)

    if "deep" in case:
        return run_deep(pvg, case, rec)

    axis, up = case["axis"], case["up"]

    if case["dim"] == 3:
        mesh, pts, cells, dims = layers.base_mesh(case["base"], axis, w=0.25)
        stack = rec.call(pvg.MeshStack3D, mesh, axis, up)

    else:
        arg, pts = line2d(case["base"], axis)
        stack = rec.call(pvg.MeshStack2D, arg, axis, up)
        dims = [1, 1, 1]
        dims[{0: 1, 1: 0, 2: 0}[axis]] = len(pts)
        cells = geo.structured_cells(dims)

    st = dict(axis=axis, up=up, pts=pts, level=1.0, items=[], transition=False, dim=case["dim"], given=case["base"] not in ("list", "array", "two") and "at" not in case)
    add(rec, stack, st, case["first"], 0)

    for i, spec in enumerate(case["items"]):
        if case.get("at") == i:
            new = case["new"]

            if new == "line":
                q = st["pts"][[0, 0, 0, -1, -1]].copy()
                w = np.array([0.0, 0.3, 0.6, 0.8, 1.0])[:, None]
                q = st["pts"][0] + w * (st["pts"][-1] - st["pts"][0])
                rec.call(stack.set_transition, pv.PolyData(q, lines=[len(q), *range(len(q))]))

            else:
                q = st["pts"][0] + np.linspace(0, 1, new + 1)[:, None] * (st["pts"][-1] - st["pts"][0])
                rec.call(stack.set_transition, new)

            st["pts"], st["transition"] = q, True

        add(rec, stack, st, spec, i + 1)

    mesh = rec.call(stack.generate_mesh)
    items = st["items"]
    pts = layers.cut(items, axis, up)

    if "at" in case:
        return verify_transition(case, mesh, items, pts, rec)

    lv = layers.levels(items, pts)
    tol = 1e-5 if case["base"] == "image" else 1e-6

    if dims is not None:
        layers.verify_structured(mesh, dims, axis, lv, tol)
        key = layers.structured_index(dims, axis, len(lv))

    else:
        key = layers.unstructured_key(mesh, cells, lv, tol)
        layers.verify_unstructured(mesh, cells, lv, key, tol)
        layers.conforming(mesh, cells, lv, tol)

    layers.verify_ghost(mesh, key, cells, lv)
    rec.state(case["base"], axis, np.asarray(mesh.points, float))
    rec.outcome(case["dim"], mesh.n_cells, tuple(np.round(mesh.bounds, 3)))


def verify_transition(case, mesh, items, pts, rec):
    """Area of every item, nodes kept, nothing else."""
    check(isinstance(mesh, pv.UnstructuredGrid), "transition mesh is not unstructured")
    axis = case["axis"]
    got = np.asarray(mesh.points, float)
    cells = geo.cells_of(mesh)
    item = np.asarray(mesh.cell_data["StackItem"])
    c = [k for k in range(3) if k != axis and np.ptp(pts[0][:, k]) > 0][0]
    total = 0

    for i in range(1, len(items)):
        ids = np.flatnonzero(item == i - 1)
        a, b = pts[i - 1], pts[i]
        loop = np.vstack((a[:, [c, axis]], b[::-1][:, [c, axis]]))
        area = abs(geo.signed_area2(loop))
        sizes = np.array([abs(geo.signed_area2(got[cells[k][1]][:, [c, axis]])) for k in ids])
        check(abs(sizes.sum() - area) <= 1e-6 * area, "item {} covers {} instead of {}", i, float(sizes.sum()), area)

        if items[i].transition:
            check({cells[k][0] for k in ids} == {5}, "transition layer is not made of triangles")
            nodes = np.unique([n for k in ids for n in cells[k][1]])
            ref = layers.unique_rows(np.vstack((a, b)))
            check((geo.match_points(ref, got[nodes]) >= 0).all(), "transition layer misses nodes of its lines")

            # boundary edges of the layer are the segments of both lines and the two sides
            count = {}

            for k in ids:
                q = cells[k][1]

                for n in range(3):
                    e = frozenset((q[n], q[(n + 1) % 3]))
                    count[e] = count.get(e, 0) + 1

            edges = {e for e, n in count.items() if n == 1}
            check(max(count.values()) <= 2, "edge shared by more than two cells")

            for line in (a, b):
                idx = geo.match_points(line, got)

                for p, q in zip(idx[:-1], idx[1:]):
                    check(frozenset((int(p), int(q))) in edges, "transition layer does not conform to its lines")

        else:
            t = layers.model.perc(items[i].res, items[i].method)
            check(len(ids) == (len(a) - 1) * (len(t) - 1), "number of cells of item {}", i)
            lv = layers.levels([items[i - 1], items[i]], [a, b])
            ref = []

            for _, lo, hi in lv:
                for k in range(len(lo) - 1):
                    ref.append(np.vstack((lo[k : k + 2], hi[k : k + 2])).mean(axis=0))

            cent = np.array([got[cells[k][1]].mean(axis=0) for k in ids])
            check((geo.match_points(ref, cent) >= 0).all(), "cells of item {} differ", i)

        total += len(ids)

    check(total == mesh.n_cells, "cells without item")
    rec.state("transition", np.asarray(mesh.points, float))
    rec.outcome("transition", mesh.n_cells)


def run_deep(pvg, case, rec):
    """A later item below an earlier, non-adjacent one: layers must not overlap."""
    if case["dim"] == 2:
        stack = rec.call(pvg.MeshStack2D, [0.0, 1.0, 2.0])

    else:
        stack = rec.call(pvg.MeshStack3D, layers.base_mesh("s2x1", 2)[0])

    rec.call(stack.add, 0.0)
    rec.call(stack.add, 1.0)
    rec.call(stack.add, lambda x, y, z: np.where(x > 1.5, -1.0, 2.0))
    mesh = rec.call(stack.generate_mesh)
    pts = np.asarray(mesh.points, float)

    for x in np.unique(pts[:, 0]):
        sel = pts[pts[:, 0] == x]

        for y in np.unique(sel[:, 1]):
            z = sel[sel[:, 1] == y][:, 2]
            check((np.diff(z) >= -1e-9).all(), "layers overlap over x={}: {}", float(x), z.tolist())


def run_err(pvg, e, rec):
    rec.state(e)
    b = layers.base_mesh("s2x1", 2)[0]

    if e == "empty":
        rec.raises(ValueError, rec.call(pvg.MeshStack3D, b).generate_mesh)

    elif e == "one":
        rec.raises(ValueError, rec.call(pvg.MeshStack3D, b).add(1.0).generate_mesh)

    elif e == "axis":
        rec.raises(ValueError, pvg.MeshStack3D, b, 3)
        rec.raises(ValueError, pvg.MeshStack2D, pv.Line(), -1)

    elif e == "dim1":
        rec.raises(ValueError, pvg.MeshStack3D, pv.StructuredGrid(np.arange(3.0).reshape(3, 1, 1), np.zeros((3, 1, 1)), np.zeros((3, 1, 1))))

    elif e == "dim3":
        rec.raises(ValueError, pvg.MeshStack3D, pv.ImageData(dimensions=(3, 3, 3)))

    elif e == "flat_axis":
        for axis in (0, 1):
            rec.raises(ValueError, pvg.MeshStack3D, b, axis)

    elif e == "array1":
        s = rec.call(pvg.MeshStack3D, b)
        rec.raises(ValueError, s.add, [0.0, 1.0, 2.0])

    elif e == "array2cols":
        s = rec.call(pvg.MeshStack3D, b)
        rec.raises(ValueError, s.add, np.zeros((4, 2)))

    elif e == "outside":
        p = np.array([(-1, -1, 0), (1, -1, 0), (-1, 5, 0), (1, 5, 0)], float)

        for arg in (p, pv.PolyData(p)):
            s = rec.call(pvg.MeshStack3D, b)
            rec.raises(ValueError, s.add, arg)

    elif e == "extrapolation":
        p = np.array([(-1, -1, 0), (1, -1, 0), (-1, 5, 0), (1, 5, 0)], float)
        s = rec.call(pvg.MeshStack3D, b)
        rec.raises(ValueError, s.add, p, extrapolation="linear")

    elif e == "faces2":
        rec.raises(ValueError, pvg.MeshStack2D, pv.Plane())
        rec.raises(ValueError, pvg.MeshStack2D, b)

    elif e == "outside2":
        for x in ([0.5, 9.0], [-1.0, 2.0], [9.0, 0.5], [2.0, -1.0]):
            s = rec.call(pvg.MeshStack2D, [0.0, 1.0, 3.0])
            rec.raises(ValueError, s.add, np.array([(q, 0.0, 1.0) for q in x]))

    else:
        s = rec.call(pvg.MeshStack3D, b)
        rec.call(s.add_plane, [0.0, 0.0, 45.0], [0.0, 0.0, 1.0])
        check(np.allclose(s.items[0].mesh.points[:, 2], 1.0), "rotation about the stacking axis tilts the plane")
