"""
Explicit enumeration of all simple lattice polygons up to a number of corners, in both directions and from every start, in every coordinate plane, at several positions and elevations, with distances of both signs.
The oracle shifts the supporting line of every edge along its outward normal and intersects neighbouring lines.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C25"
PROPERTY = dict(
    title="Offset polygons have every edge shifted by the given distance",
    statement=(
        "offset_polygon returns, for each polygon lying in a plane normal to a coordinate axis, the polygon whose edges are parallel to the original ones at exactly the given distance, outside for positive and inside for negative distances, corner by corner in the "
        "same order and in the same plane, whatever the direction in which the corners are listed, the plane and the position of the polygon. A zero distance returns an unchanged copy, input without faces and polygons in other planes are rejected, and the input is not modified."
    ),
    quantifier=dict(over=["inputs"], text="all simple polygons, directions, planes, positions and distances"),
    why_tests_cant="Tests offset a square at the origin, where wrong signs and a lost elevation cannot be seen.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="orientation and miter offset", where="utils/_misc.py offset_polygon")],
    state=["polygon", "distance"],
    level_note="All simple polygons with 3 to 4 (thorough: 5) corners on a 3x3 lattice, 3 planes, 4 positions, 2 elevations.",
)
ASSUMPTIONS = ["no corner turns back on itself"]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def simple(p):
    """Simple polygon without spikes (collinear corners allowed)."""
    n = len(p)
    p = np.array(p, float)

    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]

        if cross(b - a, c - b) == 0 and (b - a) @ (c - b) <= 0:
            return False

    for i, j in itertools.combinations(range(n), 2):
        if j == i + 1 or (i == 0 and j == n - 1):
            continue

        a, b, c, d = p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]
        o = [np.sign(cross(b - a, c - a)), np.sign(cross(b - a, d - a)), np.sign(cross(d - c, a - c)), np.sign(cross(d - c, b - c))]

        if o[0] * o[1] <= 0 and o[2] * o[3] <= 0:
            if not any(o):  # collinear
                u = b - a
                s = sorted((0.0, u @ u))
                t = sorted(((c - a) @ u, (d - a) @ u))

                if t[1] < s[0] or t[0] > s[1]:
                    continue

            return False

    return True


GRID = [(i, j) for j in range(3) for i in range(3)]
POLYS = {}


def polygons(n):
    """All simple polygons with n corners; first corner not fixed (all starts and directions)."""
    if n not in POLYS:
        POLYS[n] = [p for p in itertools.permutations(GRID, n) if simple(p)]

    return POLYS[n]


SHIFTS = [(0, 0), (10, -7), (-20, -30), (-3, 40)]


def gen(n_list, canonical):
    def g(ctx):
        n = ctx.choose("n", n_list, free=True)
        polys = polygons(n)

        if canonical:  # one start per polygon and direction
            polys = [p for p in polys if p[0] == min(p)]

        p = ctx.choose("polygon", polys, free=True)

        return dict(
            polygons=[[list(q) for q in p]],
            shift=list(ctx.choose("shift", SHIFTS, free=True)),
            axis=ctx.choose("axis", (2, 0, 1)),
            w=ctx.choose("w", (0.0, 5.0)),
            d=ctx.choose("d", (0.25, -0.125, 0.0)),
            how=ctx.choose("how", ("mesh", "points", "list")),
        )

    return g


MULTI = [[(0, 0), (2, 0), (1, 2)], [(0, 2), (2, 2), (2, 0), (0, 0)], [(0, 0), (1, 0), (2, 0), (2, 2), (1, 1), (0, 2)]]


def gen_multi(ctx):
    n = ctx.choose("n", (2, 3), free=True)
    p = [[list(q) for q in ctx.choose(f"p{i}", MULTI, free=True)] for i in range(n)]

    return dict(polygons=p, shift=list(ctx.choose("shift", SHIFTS, free=True)), axis=ctx.choose("axis", (2, 0, 1, [2, 0, 1], [1, 1, 2], [0, 2, 2]), free=True), w=5.0, d=ctx.choose("d", (0.25, -0.125), free=True), how=ctx.choose("how", ("mesh", "permuted", "lines"), free=True))


def gen_bad(ctx):
    k = ctx.choose("kind", ("lines", "tilted", "cloud", "segment"), free=True)

    return dict(bad=k, d=ctx.choose("d", (0.25, -0.25), free=True))


def spaces(tier):
    if tier == "quick":
        return [("polygons", gen([3, 4], True), 1), ("several", gen_multi, None), ("invalid", gen_bad, None)]

    return [("polygons", gen([3, 4], False), 3), ("pentagons", gen([5], True), 1), ("several", gen_multi, None), ("invalid", gen_bad, None)]


def place(p, axis, w):
    return np.insert(np.asarray(p, float), axis, w, axis=1)


def oracle(p, d):
    p = np.array(p, float)
    n = len(p)
    area = sum(cross(p[i], p[(i + 1) % n]) for i in range(n))
    s = np.sign(area)
    out = []

    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        u, v = (b - a) / np.linalg.norm(b - a), (c - b) / np.linalg.norm(c - b)
        nu, nv = s * np.array([u[1], -u[0]]), s * np.array([v[1], -v[0]])

        if abs(cross(u, v)) < 1e-12:
            out.append(b + d * nu)

        else:  # x . nu = b . nu + d, x . nv = b . nv + d
            out.append(np.linalg.solve(np.array([nu, nv]), [b @ nu + d, b @ nv + d]))

    return np.array(out)


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "bad" in case:
        q = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0)], float)
        mesh = {
            "lines": lambda: pv.PolyData(q, lines=[3, 0, 1, 2]),
            "cloud": lambda: pv.PolyData(q),
            "tilted": lambda: pv.PolyData(q + [[0, 0, 0], [0, 0, 1], [0, 0, 0]], faces=[3, 0, 1, 2]),
            "segment": lambda: pv.PolyData(q[[0, 1, 1]] * [[1, 1, 1], [1, 1, 1], [2, 1, 1]], faces=[3, 0, 1, 2]),
        }[case["bad"]]()
        rec.raises(ValueError, pvg.offset_polygon, mesh, case["d"])
        return

    w, d = case["w"], case["d"]
    pts, faces, exp = [], [], []

    for k, p in enumerate(case["polygons"]):
        axis = case["axis"][k] if isinstance(case["axis"], list) else case["axis"]
        p = np.array(p, float) + case["shift"] + np.array([4.0 * k, 0.0])
        faces += [len(p), *range(len(pts), len(pts) + len(p))]
        pts += place(p, axis, w + k).tolist()
        exp.append(place(oracle(p, d), axis, w + k))

    pts = np.array(pts)

    if case["how"] == "permuted":  # points in reverse order, and a point that belongs to no face
        k, n = 0, len(pts)
        pts = np.vstack((pts[::-1], pts[:1] + 30.0))

        while k < len(faces):
            faces[k + 1 : k + 1 + faces[k]] = [n - 1 - i for i in faces[k + 1 : k + 1 + faces[k]]]
            k += faces[k] + 1

    arg = pv.PolyData(pts, faces=faces, lines=[2, 0, 1]) if case["how"] == "lines" else pv.PolyData(pts, faces=faces) if case["how"] == "permuted" else pv.PolyData(pts, faces=faces) if case["how"] == "mesh" else pts if case["how"] == "points" else pts.tolist()
    before = geo.snapshot(arg)
    out = rec.call(pvg.offset_polygon, arg, d)
    check(isinstance(out, pv.PolyData) and out is not arg, "not a new polydata")
    check(not geo.snapshot_diff(before, geo.snapshot(arg)), "input modified")
    got = [np.array(out.points, float)[list(c)] for t, c in geo.cells_of(out)]
    check(len(got) == len(exp), "{} polygons instead of {}", len(got), len(exp))

    for i, (g, e) in enumerate(zip(got, exp)):
        check(geo.close(g, e, 1e-5), "polygon {}: {} instead of {}", i, g.tolist(), e.tolist())

    rec.outcome(*got)
