"""
Full product of small 2D and 3D meshes (all cell types, holes, all dataset types), rotations of the whole scene, and rays: all ordered pairs of a set of generic points, and for every face the rays that hit it perpendicularly.
Every edge or face of every cell is intersected by hand and compared with what the code returns: same edges or faces, same points, same owners.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import Skip, check

ID = "C21"
PROPERTY = dict(
    title="A ray cast finds every edge or face crossed, once, at the right point",
    statement=(
        "ray_cast returns exactly the distinct edges of a 2D mesh or faces of a 3D mesh (or the lines or faces of a polydata) crossed by the segment between both points, as a polydata with the point where each is crossed and the cell(s) "
        "it belongs to (or its own index for a polydata), for any direction of the ray including perpendicular ones. If a maximum angle is given, faces whose normal makes a larger angle with the ray are left out. "
        "It returns None if nothing is crossed, and polydata with both lines and faces raise ValueError."
    ),
    quantifier=dict(over=["inputs"], text="all meshes, rays in general position or perpendicular to a face, rotations and angles within the bounds"),
    why_tests_cant="Tests compare three sums of coordinates for four axis-parallel rays.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="face selection and plane intersection", where="utils/_misc.py ray_cast"), dict(name="edges, faces and their owners", where="utils/_misc.py extract_cell_geometry")],
    state=["edges or faces", "owners"],
    level_note="Pairs of cells of every type, all ordered pairs of generic points.",
)
ASSUMPTIONS = ["the ray does not touch an edge, a corner or a plane face it lies in; faces are plane", "lines of a polydata have two points each"]

A3 = [(-1.13, 0.31, 0.77), (0.43, 0.23, 0.91), (1.71, 1.37, 2.21), (3.9, 3.3, 3.7), (0.61, -1.3, 1.1), (1.3, 0.9, -1.7), (-0.7, 2.9, 4.1)]
A2 = [(-1.13, 0.31), (0.43, 0.23), (1.71, 1.37), (3.9, 3.3), (0.61, -1.3), (1.3, 0.9), (-0.7, 2.9)]
ROT = [(0, 0, 0), (17.3, 41.0, -63.7), (45.0, 0, 0), (0, 30.0, 30.0), (123.4, -5.6, 78.9)]


def matrix(r):
    a, b, c = np.deg2rad(ROT[r])
    rx = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    ry = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    rz = np.array([[np.cos(c), -np.sin(c), 0], [np.sin(c), np.cos(c), 0], [0, 0, 1]])

    return rz @ ry @ rx


def ray(ctx, n):
    a = ctx.choose("a", range(n), free=True)

    return [a, ctx.choose("b", [i for i in range(n) if i != a], free=True)]


def gen3(full):
    def g(ctx):
        dims = ctx.choose("dims", ([2, 1, 1], [1, 1, 2], [1, 2, 1]), free=full)
        cells = "".join(ctx.choose("cell", "hvpwky-", free=True) for _ in range(2))

        if cells == "--":
            return None

        return dict(spec=dict(kind="cells3d", dims=dims, cells=cells), rot=ctx.choose("rot", range(len(ROT))), shift=ctx.choose("shift", (0.0, 5000.0)), ray=ray(ctx, len(A3)), angle=ctx.choose("angle", (None, 20.0, 60.0, 0.0, 85.0)))

    return g


def gen2(full):
    def g(ctx):
        dims = ctx.choose("dims", ([2, 2],), free=True)
        cells = "".join(ctx.choose("cell", "qtgxu-" if full else "qtg-", free=True) for _ in range(dims[0] * dims[1]))

        if not cells.strip("-"):
            return None

        return dict(spec=dict(kind="cells2d", dims=dims, cells=cells, axis=ctx.choose("axis", (2, 1, 0))), rot=ctx.choose("rot", range(len(ROT))), shift=ctx.choose("shift", (0.0, 5000.0)), ray=ray(ctx, len(A2)) if full else ctx.choose("ray", ([0, 3], [4, 6], [6, 5], [1, 2], [3, 6]), free=True))

    return g


def gen_poly(ctx):
    kind = ctx.choose("kind", ("faces", "lines", "both"), free=True)

    return dict(poly=kind, rot=ctx.choose("rot", range(len(ROT)), free=True), ray=ray(ctx, len(A3)), axis=ctx.choose("axis", (2, 1, 0)), angle=ctx.choose("angle", (None, 20.0, 60.0, 0.0, 85.0)))


def gen_struct(ctx):
    dims = ctx.choose("dims", ([2, 2, 2], [2, 2, 0], [3, 0, 2], [0, 2, 2], [1, 1, 1], [2, 1, 3]), free=True)

    return dict(spec=dict(kind="structured", type=ctx.choose("type", ("struct", "image", "rect"), free=True), dims=dims), rot=0, shift=0.0, ray=ray(ctx, len(A3)), ghost=ctx.choose("ghost", (None, 0, 1), free=True))


def gen_perp(ctx):
    cells = ctx.choose("cells", ("hh", "pw", "vk", "yh", "wp"), free=True)

    return dict(
        perp=ctx.choose("face", range(4), free=True),
        spec=dict(kind="cells3d", dims=ctx.choose("dims", ([2, 1, 1], [1, 1, 2]), free=True), cells=cells),
        turn=[ctx.choose("ax", range(0, 90, 9), free=True), ctx.choose("az", range(0, 90, 15), free=True)],
        rev=ctx.flag("rev", free=True),
    )


def spaces(tier):
    q = tier == "quick"

    return [("volumes", gen3(not q), 1), ("surfaces", gen2(not q), 1 if q else 1), ("polydata", gen_poly, 1 if q else None), ("structured", gen_struct, None), ("perpendicular", gen_perp, None)]


def hit(a, b, q, axis_pair=None):
    """Point where the segment crosses the convex polygon q, or the segment q (both in a plane)."""
    if len(q) == 2:
        u, v = b - a, q[1] - q[0]
        w = np.cross(u, v)
        n = w @ w

        if n < 1e-12:
            return None

        t = np.cross(q[0] - a, v) @ w / n
        s = np.cross(q[0] - a, u) @ w / n
        x = a + t * u

        return x if 0 < t < 1 and 0 < s < 1 and np.linalg.norm(x - q[0] - s * v) < 1e-6 else None

    n = geo.area_vector(q)
    c = q.mean(axis=0)
    da, db = (a - c) @ n, (b - c) @ n

    if da * db >= 0:
        return None

    x = a + (b - a) * da / (da - db)
    m = [np.cross(q[(i + 1) % len(q)] - q[i], x - q[i]) @ n for i in range(len(q))]

    return x if min(m) > 0 or max(m) < 0 else None


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    poly = "poly" in case
    angle = case.get("angle")

    if poly:
        _, cells = meshes.cells2d([2, 2], "qtgq")
        pts = meshes.place(_, case["axis"], 0.3)
        lines = [(3, e) for e in ([0, 4], [4, 8], [1, 4], [2, 6], [3, 5])]
        cells = {"faces": cells, "lines": lines, "both": lines + cells}[case["poly"]]
        mesh = meshes.polydata(pts, cells)
        cells = geo.cells_of(mesh)
        ghost = None

    else:
        mesh, cells = meshes.build(case["spec"])
        ghost = case.get("ghost")

    dim = max(geo.DIM[t] for t, _ in cells)

    if "perp" in case:
        a, b = np.deg2rad(case["turn"][0]), np.deg2rad(case["turn"][1])
        R = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]]) @ np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])

    else:
        R = matrix(case["rot"])

    if case["space"] != "structured":
        mesh.points = np.array(mesh.points, float) @ R.T + case.get("shift", 0.0)

    P = np.array(mesh.points, float)

    # Edges or faces and their owners
    F = {}

    if poly:
        for i, (t, c) in enumerate(cells):
            F[frozenset(c)] = (list(c), [i])

    else:
        for i, (t, c) in enumerate(cells):
            for f in meshes.boundary(t, c):
                F.setdefault(frozenset(f), (f, []))[1].append(i)

    if "perp" in case:
        f, _ = list(F.values())[case["perp"] * len(F) // 4]
        q = P[f]
        x = np.average(q, axis=0, weights=[1.0, 1.3, 1.7, 2.3][: len(q)])
        n = geo.area_vector(q)
        n = n / np.linalg.norm(n) * (-1 if case["rev"] else 1)
        a, b = x - 0.27 * n, x + 0.33 * n

    elif dim == 3 or poly or case["spec"]["kind"] == "structured":
        a, b = [np.array(A3[i]) for i in case["ray"]]

        if not poly and 0 in case["spec"].get("dims", []):
            ax = case["spec"]["dims"].index(0)
            a[ax] = b[ax] = 0.0

        if poly and case["poly"] == "lines":
            a[case["axis"]] = b[case["axis"]] = 0.3

        a, b = [R @ p + case.get("shift", 0.0) for p in (a, b)]

    else:
        a, b = [R @ p + case.get("shift", 0.0) for p in meshes.place([A2[i] for i in case["ray"]], case["spec"]["axis"])]

    if poly and case["poly"] == "both":
        rec.raises(ValueError, pvg.ray_cast, mesh, a, b)
        return

    exp = {}

    for k, (f, own) in F.items():
        q = P[f]
        x = hit(a, b, q)

        if x is None:
            continue

        if angle is not None and len(f) > 2:
            n = geo.area_vector(q)
            ang = np.rad2deg(np.arccos(min(1.0, abs(n @ (b - a)) / np.linalg.norm(n) / np.linalg.norm(b - a))))

            if abs(ang - angle) < 1e-3:
                raise Skip

            if ang > angle:
                continue

        # not in general position: too close to the rim
        for i in range(len(f)):
            u, v = q[i], q[(i + 1) % len(f)]

            if len(f) > 2 and np.linalg.norm(np.cross(v - u, x - u)) / np.linalg.norm(v - u) < 1e-4:
                raise Skip

        exp[k] = (x, sorted(own))

    if ghost is not None:
        g = np.zeros(mesh.n_cells, dtype=np.uint8)
        g[ghost % mesh.n_cells] = 32
        mesh.cell_data["vtkGhostType"] = g

    kw = {} if angle is None else dict(max_angle=angle)
    out = rec.call(pvg.ray_cast, mesh, a if case.get("rot", 0) % 2 else a.tolist(), b, **kw)

    if out is None:
        check(not exp or ghost is not None, "nothing found, {} crossed", len(exp))
        return

    check(isinstance(out, pv.PolyData) and out.n_cells > 0, "not a polydata")
    ids = np.asarray(out.cell_data["vtkOriginalCellIds"])
    xs = np.asarray(out.cell_data["IntersectionPoints"], float)
    check(len(xs) == out.n_cells and len(ids) == out.n_cells, "arrays do not match the cells")
    got = {}

    for (t, c), i, x in zip(geo.cells_of(out), ids, xs):
        q = np.array(out.points, float)[c]
        d = np.linalg.norm(P[None] - q[:, None], axis=2)
        check(d.min() < 1e-3, "unknown points")
        k = frozenset(int(v) for v in d.argmin(axis=1))
        check(k not in got, "{} returned twice", sorted(k))
        got[k] = (x, sorted(int(v) for v in np.atleast_1d(i) if v >= 0))

    if ghost is not None:  # cells of ghosts: only soundness
        check(set(got) <= set(exp), "edges or faces {} are not crossed", [sorted(k) for k in set(got) - set(exp)])

    else:
        check(set(got) == set(exp), "crossed {} instead of {}", [sorted(k) for k in got], [sorted(k) for k in exp])

    tol = 1e-4 if not case.get("shift") else 5e-2

    for k, (x, own) in got.items():
        check(bool(np.linalg.norm(x - exp[k][0]) < tol), "crossed at {} instead of {}", x, exp[k][0])

        if ghost is None:
            check(own == exp[k][1], "belongs to {} instead of {}", own, exp[k][1])

    rec.outcome(len(got), np.round(np.array(sorted(np.round(v[0], 3).tolist() for v in got.values())), 3))
