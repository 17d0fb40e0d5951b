"""
Deviation-bounded product, per primitive, of sizes x angles x resolutions (integers and arrays) x methods x
center. Each case generates the primitive with the real code and compares every node (by structured index)
or the multiset of cells (by node coordinates) with analytic coordinates, checks that shared nodes are not
duplicated, and that the cells tile the analytic area or volume; invalid sizes have to raise ValueError.
"""

import numpy as np
import pyvista as pv

from .. import geo, model
from ..core import check

ID = "C04"
PROPERTY = dict(
    title="Geometric primitives have analytic coordinates and conforming cells",
    statement=(
        "Rectangle, Square and Quadrilateral return the bilinear grid of their corners (x index along the first side); "
        "AnnularSector, Annulus, CylindricalShellSector and CylindricalShell the grid theta x r (x z) of their angles in "
        "degrees, radii and height centred on z = 0; Sector and Circle the fan of triangles (center, arc node, next arc "
        "node), the last arc node of a Circle coinciding with the first; RectangleSector and SquareSector (SectorRectangle "
        "and SectorSquare) the quads that fill the quarter between the rectangle and the arc, the corner being joined to "
        "the 45 degree node and both blocks sharing the nodes of that edge without duplicates. A center of two or three "
        "components translates the object, and every resolution and method applies to its own direction only. Negative or "
        "wrongly ordered radii, a sector radius smaller than the rectangle's diagonal, an inner sector radius not "
        "strictly between 0 and both sides, and a center of another size raise ValueError."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every primitive, size, angle range, per-direction resolution and method, center",
    ),
    why_tests_cant="Each primitive is tested with one or two parameter sets by the sum of its coordinates, which is "
    "blind to swapped directions, duplicated nodes and wrong cells.",
    files=["pvgridder/core/geometric_objects.py", "pvgridder/core/_helpers.py"],
    mechanism=[
        dict(name="primitives built from ruled surfaces between lines and arcs", where="core/geometric_objects.py"),
        dict(name="arc and line nodes", where="core/_helpers.py generate_arc, generate_line_from_two_points, translate"),
    ],
    level_note="Up to 5 subdivisions per direction; coordinates compared to 1e-5. Circles need at least 3 subdivisions.",
)
ASSUMPTIONS = ["Direction resolutions beyond the enumerated ones are covered by C01"]

R = [2, 3, 1, None, 5, [0.0, 0.25, 1.0]]
M = [None, "log", "log_r"]
CENTER = [None, [3.0, -2.0], [1.0, 2.0, 5.0], "array3", "tuple2"]
NAMES = ["Rectangle", "Square", "Quadrilateral", "AnnularSector", "Annulus", "Sector", "Circle", "CylindricalShell",
         "CylindricalShellSector", "RectangleSector", "SquareSector", "SectorRectangle", "SectorSquare"]


def gen(ctx):
    name = ctx.choose("name", NAMES, free=True)
    k = dict(name=name)
    k["ra"] = ctx.choose("ra", R)
    k["ma"] = ctx.choose("ma", M)
    one = name in ("Sector", "Circle", "Square")
    k["rb"] = ctx.choose("rb", [3] if one else [3, 2, 1, None, 4, [0.0, 0.5, 0.6, 1.0]])
    k["mb"] = ctx.choose("mb", M[:1] if one else M)
    if name == "Circle" and k["ra"] not in (2, 3, 5):
        return None

    k["center"] = ctx.choose("center", [c for c in CENTER if not (name.startswith("Cyl") and c in (CENTER[1], "tuple2"))])

    if name in ("RectangleSector", "CylindricalShell", "CylindricalShellSector"):
        k["rc"] = ctx.choose("rc", [2, 1, 4, [0.0, 0.1, 1.0]])
        k["mc"] = ctx.choose("mc", M)

    if name in ("Rectangle", "Square"):
        k["size"] = ctx.choose("size", [[2.0, 3.0], [1.0, 1.0], [0.25, 7.5]], free=True)

    elif name == "Quadrilateral":
        k["size"] = ctx.choose("size", [None, "2d", "3d", "cw"], free=True)

    elif name in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        k["size"] = ctx.choose("size", [[1.0, 2.0], [0.0, 1.5], [0.5, 10.0]], free=True)

    elif name in ("Sector", "Circle"):
        k["size"] = ctx.choose("size", [[1.0], [3.5]], free=True)

        if name == "Circle" and k["ra"] not in (3, 5):
            return None

    elif name in ("RectangleSector", "SquareSector"):
        k["size"] = ctx.choose("size", [[1.0, 1.0, 3.0], [0.5, 2.0, 4.0], [2.0, 0.5, 2.25]], free=True)

    else:
        k["size"] = ctx.choose("size", [[1.0, 2.0, 3.0], [0.5, 1.0, 0.75], [1.5, 6.0, 2.0]], free=True)

    if name in ("AnnularSector", "Sector", "CylindricalShellSector"):
        k["angles"] = ctx.choose("angles", [None, [-30.0, 45.0], [100.0, 350.0], [90.0, 10.0], [0.0, 180.0], [12.345678, 67.890123]], free=True)

    if name.startswith("Cyl"):
        k["height"] = ctx.choose("height", [None, 4.0], free=True)

    return k


ERRORS = [
    ["AnnularSector", [-1.0, 1.0]], ["AnnularSector", [1.0, 1.0]], ["AnnularSector", [2.0, 1.0]], ["AnnularSector", [0.0, 0.0]],
    ["Annulus", [-0.5, 1.0]], ["Annulus", [3.0, 1.0]], ["CylindricalShell", [2.0, 1.0]], ["CylindricalShell", [-1.0, 1.0]],
    ["CylindricalShellSector", [1.0, 1.0]], ["Sector", [0.0]], ["Sector", [-2.0]], ["Circle", [0.0]], ["Circle", [-1.0]],
    ["RectangleSector", [1.0, 1.0, 1.25]], ["RectangleSector", [1.0, 1.0, 0.0]], ["RectangleSector", [1.0, 2.0, -3.0]],
    ["SquareSector", [1.0, 1.0]], ["SquareSector", [1.0, 0.0]], ["SquareSector", [1.0, -5.0]],
    ["SectorRectangle", [0.0, 1.0, 1.0]], ["SectorRectangle", [-1.0, 1.0, 1.0]], ["SectorRectangle", [1.0, 1.0, 2.0]],
    ["SectorRectangle", [1.5, 3.0, 1.0]], ["SectorSquare", [2.0, 1.0]], ["SectorSquare", [0.0, 1.0]],
    ["Rectangle", "center1"], ["Rectangle", "center4"], ["Sector", "center4"], ["Annulus", "center1"], ["SectorSquare", "center4"],
]


def gen_err(ctx):
    return dict(error=ctx.choose("e", ERRORS, free=True))


def gen_closed(ctx):
    return dict(closed=ctx.choose("closed", ["Circle(1.0, 8)"], free=True))


def spaces(tier):
    return [("primitives", gen, 2 if tier == "quick" else 3), ("errors", gen_err, None), ("closed", gen_closed, None)]


def quads(la, lb, t):
    """Corner coordinates of the quads of a ruled surface."""
    P = la[None] + t[:, None, None] * (lb - la)[None]

    return [P[[j, j, j + 1, j + 1], [i, i + 1, i + 1, i]] for j in range(len(t) - 1) for i in range(len(la) - 1)]


def arc(r, th):
    th = np.deg2rad(th)

    return np.column_stack((r * np.cos(th), r * np.sin(th), 0 * th))


def run(case, rec):
    import pvgridder as pvg

    if "error" in case:
        name, arg = case["error"]
        rec.state(name, arg)
        rec.outcome(name)

        if isinstance(arg, str):
            rec.raises(ValueError, getattr(pvg, name), center=[1.0] if arg == "center1" else [1.0, 2.0, 3.0, 4.0])

        else:
            rec.raises(ValueError, getattr(pvg, name), *arg)

        return

    if "closed" in case:
        mesh = rec.call(pvg.Circle, 1.0, 8)
        rec.state("closed")
        check(mesh.n_points == 9, "Circle(1.0, 8) has {} nodes instead of 9: its first and last arc nodes are not merged", mesh.n_points)
        return

    name = case["name"]
    f = getattr(pvg, name)
    cen = case["center"]
    c3 = np.zeros(3)
    kw = {}

    if cen is not None:
        cen = np.array([-4.0, 0.5, 2.0]) if cen == "array3" else (6.0, 7.0) if cen == "tuple2" else cen
        c3[: len(cen)] = cen
        kw["center"] = cen

    ra, rb, ma, mb = case["ra"], case["rb"], case["ma"], case["mb"]
    ta, tb = model.perc(ra, ma), model.perc(rb, mb)
    size = case["size"]
    call = rec.call

    if name in ("Rectangle", "Square", "Quadrilateral"):
        if name == "Rectangle":
            mesh = call(f, size[0], size[1], ra, rb, ma, mb, **kw)
            P = np.array([(0, 0, 0), (size[0], 0, 0), (size[0], size[1], 0), (0, size[1], 0)], float)

        elif name == "Square":
            mesh = call(f, size[0], ra, ma, **kw)
            P = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], float) * size[0]
            tb = ta

        else:
            P = {
                None: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
                "2d": [(0, 0, 0), (3, 0.5, 0), (2.5, 2, 0), (-0.5, 1, 0)],
                "3d": [(0, 0, 0), (3, 0.5, 1), (2.5, 2, 2), (-0.5, 1, -1)],
                "cw": [(0, 0, 0), (0, 2, 0), (3, 2, 0), (3, 0, 0)],
            }[size]
            P = np.array(P, float)
            arg = None if size is None else [tuple(p[:2]) for p in P] if size == "2d" else P
            mesh = call(f, arg, ra, rb, ma, mb, **kw)

        check(isinstance(mesh, pv.StructuredGrid), "type")
        check(list(mesh.dimensions) == [len(ta), len(tb), 1], "dimensions {}", mesh.dimensions)
        lo = P[0] + ta[:, None] * (P[1] - P[0])
        hi = P[3] + ta[:, None] * (P[2] - P[3])
        ref = np.concatenate([lo + t * (hi - lo) for t in tb]) + c3
        check(geo.close(mesh.points, ref, 1e-5), "coordinates")

    elif name in ("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector"):
        th = case.get("angles") or ([0.0, 90.0] if name in ("AnnularSector", "CylindricalShellSector") else [0.0, 360.0])
        args = list(size) + (case["angles"] or [] if "angles" in case else [])
        kw2 = dict(r_resolution=ra, theta_resolution=rb, r_method=ma, theta_method=mb, **kw)
        z = np.zeros(1)

        if name.startswith("Cyl"):
            h = 1.0

            if case["height"] is not None:
                kw2["height"] = h = case["height"]

            kw2.update(z_resolution=case["rc"], z_method=case["mc"])
            z = -0.5 * h + model.perc(case["rc"], case["mc"]) * h

        mesh = call(f, *args, **kw2)
        check(isinstance(mesh, pv.StructuredGrid), "type")
        check(list(mesh.dimensions) == [len(tb), len(ta), len(z)], "dimensions {}", mesh.dimensions)
        a = th[0] + tb * (th[1] - th[0])
        ref = np.concatenate([arc(r, a) + [0, 0, zz] for zz in z for r in size[0] + ta * (size[1] - size[0])]) + c3
        check(geo.close(mesh.points, ref, 1e-5), "coordinates")

    elif name in ("Sector", "Circle"):
        th = case.get("angles") or ([0.0, 90.0] if name == "Sector" else [0.0, 360.0])
        args = [size[0]] + (case["angles"] or [] if "angles" in case else [])
        mesh = call(f, *args, resolution=ra, method=ma, **kw)
        check(isinstance(mesh, pv.UnstructuredGrid), "type")
        n = len(ta) - 1
        nodes = arc(size[0], th[0] + ta * (th[1] - th[0])) + c3
        cells = geo.cells_of(mesh)
        check(all(t == 5 for t, _ in cells) and len(cells) == n, "cells")
        allowed = (n + 2,) if name == "Sector" else (n + 2, n + 1)  # see the space 'closed' for the merge
        check(mesh.n_points in allowed, "{} points", mesh.n_points)
        pts = np.asarray(mesh.points, float)
        ref = [np.array([c3, nodes[i], nodes[i + 1]]) for i in range(n)]
        idx = geo.match_points([q.mean(axis=0) for q in ref], [pts[c].mean(axis=0) for _, c in cells], 1e-5)
        check((idx >= 0).all() and len(set(idx.tolist())) == n, "triangles do not match the analytic ones")

        for i, (q, g) in enumerate(zip(ref, idx)):
            c = cells[g][1]
            k = [int(np.argmin(np.linalg.norm(q - x, axis=1))) for x in pts[c]]
            check(sorted(k) == [0, 1, 2] and geo.close(q[k], pts[c], 1e-5), "triangle nodes")

            if abs(th[1] - th[0]) * (ta[i + 1] - ta[i]) < 179.0:
                s = geo.signed_area2(pts[c][:, :2])
                check(s * (th[1] - th[0]) > 0.0, "triangle winding does not follow the angle")

    else:
        if name in ("RectangleSector", "SquareSector"):
            dx, dy, r = size

            if name == "SquareSector":
                dy, r = dx, max(r, 1.5 * dx)
                mesh = call(f, dx, r, x_resolution=ra, r_resolution=rb, x_method=ma, r_method=mb, **kw)
                tx = ty = ta
                tr = tb

            else:
                mesh = call(f, dx, dy, r, x_resolution=ra, y_resolution=rb, r_resolution=case["rc"],
                            x_method=ma, y_method=mb, r_method=case["mc"], **kw)
                tx, ty, tr = ta, tb, model.perc(case["rc"], case["mc"])

        else:
            r, dx, dy = size

            if name == "SectorSquare":
                dy = dx
                mesh = call(f, r, dx, r_resolution=ra, theta_resolution=rb, r_method=ma, theta_method=mb, **kw)

            else:
                mesh = call(f, r, dx, dy, r_resolution=ra, theta_resolution=rb, r_method=ma, theta_method=mb, **kw)

            tx = ty = tb
            tr = ta

        corner = np.array([dx, dy, 0.0])
        lx = corner + tx[:, None] * (np.array([0, dy, 0.0]) - corner)
        ly = corner + ty[:, None] * (np.array([dx, 0, 0.0]) - corner)
        ax, ay = arc(r, 45.0 + tx * 45.0), arc(r, 45.0 - ty * 45.0)

        if name.startswith("Sector"):
            ref = quads(ay, ly, tr) + quads(ax, lx, tr)

        else:
            ref = quads(ly, ay, tr) + quads(lx, ax, tr)

        ref = [q + c3 for q in ref]
        check(isinstance(mesh, pv.UnstructuredGrid), "type")
        cells = geo.cells_of(mesh)
        pts = np.asarray(mesh.points, float)
        check(len(cells) == len(ref), "{} cells instead of {}", len(cells), len(ref))
        cen_got = np.array([pts[c].mean(axis=0) for _, c in cells])
        cen_ref = np.array([q.mean(axis=0) for q in ref])
        idx = geo.match_points(cen_ref, cen_got, 1e-5)
        check((idx >= 0).all() and len(set(idx.tolist())) == len(ref), "cells do not match the analytic ones")

        for q, i in zip(ref, idx):
            t, c = cells[i]
            check(t == 9 and len(set(c)) == 4, "cell is not a quad")
            p = pts[c]
            k = [int(np.argmin(np.linalg.norm(q - x, axis=1))) for x in p]
            check(sorted(k) == [0, 1, 2, 3] and geo.close(q[k], p, 1e-5), "quad nodes")
            d = [(k[(s + 1) % 4] - k[s]) % 4 for s in range(4)]
            check(d in ([1] * 4, [3] * 4), "quad nodes are not in cyclic order")

        n_nodes = (len(tx) + len(ty) - 1) * len(tr)
        check(mesh.n_points == n_nodes, "{} points instead of {} (duplicated or missing nodes)", mesh.n_points, n_nodes)

    rec.state(name, np.asarray(mesh.points, float))
    rec.outcome(name, mesh.n_cells)
