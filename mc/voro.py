"""Voronoi cells by clipping with bisectors (the oracle of C14 and C15). Nothing in here calls into pvgridder."""

from __future__ import annotations

import numpy as np
from shapely import Polygon, unary_union

from . import geo
from .core import Skip, check


def clip(poly, nx, ny, c):
    """Part of a convex polygon with x nx + y ny <= c."""
    out = []
    d = [p[0] * nx + p[1] * ny - c for p in poly]

    if max(d) <= 0:
        return poly

    for i, p in enumerate(poly):
        j = i + 1 if i + 1 < len(poly) else 0

        if d[i] <= 0:
            out.append(p)

        if d[i] * d[j] < 0:
            t = d[i] / (d[i] - d[j])
            out.append((p[0] + t * (poly[j][0] - p[0]), p[1] + t * (poly[j][1] - p[1])))

    return out


def region(seeds, i, box):
    """Convex region of the points of *box* that are nearest to seed *i*."""
    d2 = ((seeds - seeds[i]) ** 2).sum(axis=1)
    order = np.argsort(d2, kind="stable").tolist()
    d2 = d2.tolist()
    ax, ay = seeds[i].tolist()
    poly = [(float(x) - ax, float(y) - ay) for x, y in box]  # relative to the seed
    far = max(x * x + y * y for x, y in poly)

    for j in order:
        if j == i:
            continue

        if len(poly) < 3 or d2[j] > 4.01 * far:  # farther than twice the farthest vertex
            break

        bx, by = seeds[j].tolist()
        q = clip(poly, bx - ax, by - ay, 0.5 * d2[j])

        if q is not poly:
            poly = q
            far = max((x * x + y * y for x, y in poly), default=0.0)

    return [np.array([x + ax, y + ay]) for x, y in poly]


_DOMAINS = {}


def domain(bg):
    """Union of convex polygons (2D coordinates)."""
    u = unary_union([Polygon(p) for p in bg])
    check(u.geom_type in ("Polygon", "MultiPolygon"), "domain")

    return u


def expected_cells(seeds, bg):
    """Polygons of all seeds clipped to the union of the convex polygons *bg* (2D coordinates); Skip if one of them is not a simple polygon."""
    seeds = np.asarray(seeds, float)
    key = str([np.asarray(p).tolist() for p in bg])

    if key not in _DOMAINS:
        _DOMAINS.clear()
        _DOMAINS[key] = domain(bg)

    dom = _DOMAINS[key]
    x0, y0, x1, y1 = dom.bounds
    h = 10 * max(x1 - x0, y1 - y0)
    box = [(x0 - h, y0 - h), (x1 + h, y0 - h), (x1 + h, y1 + h), (x0 - h, y1 + h)]
    out = []
    convex = dom.convex_hull.area - dom.area < 1e-9 * dom.area

    for i in range(len(seeds)):
        r = region(seeds, i, box)

        if len(r) < 3:
            raise Skip

        g = dom.intersection(Polygon(r).convex_hull)  # regions are convex up to rounding errors
        parts = [p for p in getattr(g, "geoms", [g]) if p.geom_type == "Polygon" and p.area > 1e-10]

        # A region that touches a reentrant corner of the domain consists of one or two parts depending on rounding errors
        eps = 1e-9 * h

        if any(a.distance(b) < eps for k, a in enumerate(parts) for b in parts[:k]):
            raise Skip

        if not convex and any(p.buffer(-eps).geom_type != "Polygon" for p in parts):
            raise Skip

        out.append(parts)

    return dom, out


def cells2d(out, axis):
    """Cells of a plane mesh as 2D coordinates."""
    keep = [a for a in range(3) if a != axis]
    P = np.asarray(out.points, float)
    check(len(P) == 0 or np.abs(P[:, axis]).max() == 0.0, "points outside of the plane")
    res = []

    for t, c in geo.cells_of(out):
        check(geo.DIM[t] == 2 and len(c) >= 3, "cell of type {} with {} points", t, len(c))
        c = geo.boundary_loops(t, c)
        check(len(set(c)) == len(c), "cell with repeated points {}", c)
        res.append(P[c][:, keep])

    return res


def seeds2d(out, axis):
    keep = [a for a in range(3) if a != axis]
    S = np.column_stack([np.asarray(out.cell_data[k], float) for k in "XYZ"])
    check(np.abs(S[:, axis]).max() == 0.0, "seeds outside of the plane")

    return S[:, keep]


def match(got, exp, tol, what="seeds"):
    """Permutation that maps got to exp."""
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    check(len(got) == len(exp), "{} {} instead of {}", len(got), what, len(exp))
    d = np.abs(got[:, None] - exp[None]).max(axis=2)
    p = d.argmin(axis=1)
    check(d.min(axis=1).max() <= tol, "{}: {} has no counterpart", what, got[int(d.min(axis=1).argmax())].tolist())
    check(len(set(p.tolist())) == len(p), "{}: not a bijection", what)

    return p
