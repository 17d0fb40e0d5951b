"""
Full product of vertices x resolution for regular lines, and of origin x length x start x end direction x
resolution for curved lines, each executed on the real code. The reference walks along the vertices (arc
length) or turns the direction step by step with explicit rotations; order, number, position and
connectivity of the returned nodes are compared.
"""

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C06"
PROPERTY = dict(
    title="Regular and curved lines have evenly spaced nodes along the right path",
    statement=(
        "RegularLine(points, resolution) returns one connected line of resolution + 1 nodes (len(points) + 1 without "
        "resolution) in order along the given polyline, the first and last node being its end points and every node k "
        "lying on it at arc length k / resolution of its total length. CurvedLine(origin, length, start, end, resolution) "
        "returns one connected line of resolution segments of length length / resolution each that starts at origin, "
        "segment k pointing in the direction obtained by turning start towards end in their common plane by the fraction "
        "(k + 1/2) / resolution of the angle between them, whatever the norms of start and end; without end it is straight."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every polyline, resolution, origin, length and pair of directions that are not opposite to each other",
    ),
    why_tests_cant="The tests compare the sum of coordinates of one or two lines.",
    files=["pvgridder/core/geometric_objects.py"],
    mechanism=[
        dict(name="arc length interpolation", where="core/geometric_objects.py RegularLine"),
        dict(name="interpolation of directions and integration", where="core/geometric_objects.py CurvedLine"),
    ],
    level_note="Ten polylines (straight, bent, closed, with repeated vertices, far from the origin), 13 directions on both "
    "ends including all axis directions, nearly parallel and nearly opposite ones; coordinates compared to 1e-6 relative.",
)
ASSUMPTIONS = ["Opposite directions have no common plane and are left out"]

LINES = {
    "segment": [(0, 0, 0), (2, 0, 0)],
    "bent": [(0, 0, 0), (1, 0, 0), (1, 3, 0)],
    "3d": [(0, 0, 0), (1, 2, 2), (4, 2, 6), (4, 2, 7)],
    "uneven": [(0, 0, 0), (0.1, 0, 0), (5, 0, 0), (5.2, 0, 0), (9, 0, 0)],
    "closed": [(0, 0, 0), (3, 0, 0), (3, 4, 0), (0, 0, 0)],
    "back": [(0, 0, 0), (3, 0, 0), (1, 0, 0), (1, 2, 0)],
    "repeated": [(0, 0, 0), (1, 1, 0), (1, 1, 0), (2, 1, 0)],
    "vertical": [(1, 1, 5), (1, 1, 3), (1, 1, -4)],
    "far": [(5000, -3000, 100), (5003, -2996, 100), (5003, -2996, 112)],
    "ints": [(0, 0, 0), (3, 4, 0), (3, 4, 12), (6, 8, 12)],
}
DIRS = [
    (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (2, 0, 0), (1, 1, 0), (0.5, 0.5, 1),
    (1, 1e-3, 0), (-1, 1e-2, 0), (1, -2, 3), (0, 0, -5),
]


def gen_regular(rmax):
    def g(ctx):
        return dict(
            line=ctx.choose("line", list(LINES), free=True),
            res=ctx.choose("res", [None, *range(1, rmax + 1)], free=True),
            kind=ctx.choose("kind", ["array", "list", "f32"], free=True),
        )

    return g


def gen_curved(ress, full):
    def g(ctx):
        return dict(
            start=ctx.choose("start", DIRS, free=True),
            end=ctx.choose("end", [None, *DIRS], free=True),
            res=ctx.choose("res", ress, free=True),
            length=ctx.choose("length", [1.0, 10.0, 0.25], free=full),
            origin=ctx.choose("origin", [(0, 0, 0), (1.5, -2.0, 3.0), (1000, 2000, 50)], free=full),
            kind=ctx.choose("kind", ["list", "array"], free=full),
        )

    return g


def spaces(tier):
    if tier == "quick":
        return [("regular", gen_regular(12), None), ("curved", gen_curved([1, 2, 3, 7], False), 1)]

    return [("regular", gen_regular(80), None), ("curved", gen_curved([1, 2, 3, 4, 5, 7, 12, 33], True), None)]


def chain(mesh, n):
    """The line cells visit the nodes 0, 1, ..., n - 1 in order."""
    check(isinstance(mesh, pv.PolyData), "type {}", type(mesh).__name__)
    check(mesh.n_points == n, "{} nodes instead of {}", mesh.n_points, n)
    ids = [0]

    for t, c in geo.cells_of(mesh):
        check(t in (3, 4) and c[0] == ids[-1], "not one connected line")
        ids += c[1:]

    check(ids == list(range(n)), "line does not visit its nodes in order")
    check(not mesh.point_data.keys() and not mesh.cell_data.keys(), "unexpected data")


def run(case, rec):
    import pvgridder as pvg

    if "line" in case:
        p = LINES[case["line"]]
        arg = p if case["kind"] == "list" else np.array(p, dtype=np.float32 if case["kind"] == "f32" else float)
        kw = {} if case["res"] is None else dict(resolution=case["res"])
        mesh = rec.call(pvg.RegularLine, arg, **kw)
        n = case["res"] or len(p)
        chain(mesh, n + 1)
        q = np.array(p, float)
        seg = np.linalg.norm(np.diff(q, axis=0), axis=1)
        L = seg.sum()
        ref = []

        for k in range(n + 1):
            s, i = L * k / n, 0

            while i < len(seg) - 1 and s > seg[i] + 1e-12 * L:
                s -= seg[i]
                i += 1

            ref.append(q[i] + (s / seg[i] if seg[i] > 0 else 0.0) * (q[i + 1] - q[i]))

        pts = np.asarray(mesh.points, float)
        check(geo.close(pts, ref, 1e-5 if case["kind"] == "f32" else 1e-6), "nodes are not evenly spaced along the line")
        rec.state("regular", pts)
        rec.outcome(n, case["line"])
        return

    a = np.array(case["start"], float)
    b = a if case["end"] is None else np.array(case["end"], float)
    u, v = a / np.linalg.norm(a), b / np.linalg.norm(b)

    if u @ v < -1 + 1e-9:
        from ..core import Skip

        raise Skip

    wrap = (lambda x: np.array(x)) if case["kind"] == "array" else (lambda x: x)
    mesh = rec.call(
        pvg.CurvedLine, wrap(case["origin"]), case["length"], wrap(case["start"]),
        None if case["end"] is None else wrap(case["end"]), case["res"],
    )
    n = case["res"]
    chain(mesh, n + 1)
    # orthonormal frame (u, w) of the plane of both directions
    w = v - (v @ u) * u
    s = np.linalg.norm(w)
    th = np.arctan2(s, u @ v)
    w = w / s if s > 0 else np.zeros(3)
    pts = [np.array(case["origin"], float)]

    for k in range(n):
        phi = (k + 0.5) / n * th
        pts.append(pts[-1] + case["length"] / n * (np.cos(phi) * u + np.sin(phi) * w))

    got = np.asarray(mesh.points, float)
    check(geo.close(got, pts, 1e-6), "nodes differ from the curved line")
    rec.state("curved", got)
    rec.outcome(n, round(float(th), 4))
