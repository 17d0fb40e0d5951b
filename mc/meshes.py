"""
Small meshes built cell by cell from a JSON specification, together with their cells as plain lists (the oracle's view).

    spec = {"kind": "cells2d", "dims": [nx, ny], "cells": "q-t...", "axis": 2, "type": "ug"}
    build(spec) -> mesh, cells with cells[i] = (VTK type, point ids | faces)

Nothing in here calls into pvgridder.
"""

from __future__ import annotations

import numpy as np
import pyvista as pv

from . import geo

CT = pv.CellType
# 2D codes: q quad, x pixel, t/u two triangles, g polygon with a mid-edge point, o polygon (4 corners), e empty cell, - nothing, l line along the bottom, n vertex
# 3D codes: h hexahedron, v voxel, w two wedges, p polyhedron, k five tetrahedra, y six pyramids, e empty cell, - nothing, q quad at the bottom, l line, n vertex


def place(p, axis, w=0.0):
    """2D coordinates in the plane normal to *axis*."""
    p = np.asarray(p, float)
    out = np.full((len(p), 3), float(w))
    out[:, [a for a in range(3) if a != axis]] = p

    return out


XS = [0.0, 1.0, 2.5, 3.0, 4.5, 5.0, 6.5]
YS = [0.0, 0.5, 2.0, 2.5, 3.5, 4.0, 5.5]
ZS = [0.0, 2.0, 2.5, 3.5, 4.0, 5.5, 6.0]


def lattice(dims):
    nx, ny, nz = [n + 1 for n in dims]

    return np.array([(XS[i], YS[j], ZS[k]) for k in range(nz) for j in range(ny) for i in range(nx)], float)


def cells2d(dims, codes):
    """Points (2D) and cells."""
    nx, ny = dims
    pts = [(XS[i], YS[j]) for j in range(ny + 1) for i in range(nx + 1)]
    cells = []

    for c, (j, i) in zip(codes, [(j, i) for j in range(ny) for i in range(nx)]):
        a = i + j * (nx + 1)
        b, d = a + 1, a + nx + 1
        e = d + 1

        if c == "q":
            cells.append((CT.QUAD, [a, b, e, d]))

        elif c == "r":  # clockwise
            cells.append((CT.QUAD, [d, e, b, a]))

        elif c == "x":
            cells.append((CT.PIXEL, [a, b, d, e]))

        elif c == "t":
            cells += [(CT.TRIANGLE, [a, b, e]), (CT.TRIANGLE, [a, e, d])]

        elif c == "u":
            cells += [(CT.TRIANGLE, [a, b, d]), (CT.TRIANGLE, [b, e, d])]

        elif c == "o":
            cells.append((CT.POLYGON, [b, e, d, a]))

        elif c == "g":
            pts.append((0.5 * (pts[a][0] + pts[b][0]), pts[a][1]))
            cells.append((CT.POLYGON, [a, len(pts) - 1, b, e, d]))

        elif c == "e":
            cells.append((CT.EMPTY_CELL, []))

        elif c == "l":
            cells.append((CT.LINE, [a, b]))

        elif c == "n":
            cells.append((CT.VERTEX, [a]))

    return np.array(pts, float), [(int(t), [int(x) for x in ids]) for t, ids in cells]


def cells3d(dims, codes):
    nx, ny, nz = dims
    pts = lattice(dims).tolist()
    cells = []
    order = [(k, j, i) for k in range(nz) for j in range(ny) for i in range(nx)]

    for c, (k, j, i) in zip(codes, order):
        at = lambda di, dj, dk: int((i + di) + (nx + 1) * ((j + dj) + (ny + 1) * (k + dk)))
        h = [at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)]
        faces = [[h[q] for q in f] for f in geo.FACES[int(CT.HEXAHEDRON)]]

        if c == "h":
            cells.append((CT.HEXAHEDRON, h))

        elif c == "v":
            cells.append((CT.VOXEL, [h[q] for q in (0, 1, 3, 2, 4, 5, 7, 6)]))

        elif c == "w":
            cells += [(CT.WEDGE, [h[q] for q in (0, 2, 1, 4, 6, 5)]), (CT.WEDGE, [h[q] for q in (0, 3, 2, 4, 7, 6)])]

        elif c == "p":
            cells.append((CT.POLYHEDRON, faces))

        elif c == "k":
            for q in ((0, 1, 3, 4), (1, 2, 3, 6), (1, 4, 6, 5), (3, 4, 7, 6), (1, 3, 4, 6)):
                cells.append((CT.TETRA, [h[r] for r in q]))

        elif c == "y":
            pts.append(np.mean([pts[q] for q in h], axis=0).tolist())

            for f in faces:
                cells.append((CT.PYRAMID, f[::-1] + [len(pts) - 1]))

        elif c == "e":
            cells.append((CT.EMPTY_CELL, []))

        elif c == "q":
            cells.append((CT.QUAD, h[:4]))

        elif c == "l":
            cells.append((CT.LINE, h[:2]))

        elif c == "n":
            cells.append((CT.VERTEX, h[:1]))

    return np.array(pts, float), [(int(t), ids) for t, ids in cells]


def ugrid(pts, cells):
    conn = []

    for t, c in cells:
        if t == int(CT.POLYHEDRON):
            flat = [len(c)]

            for f in c:
                flat += [len(f), *f]

            conn += [len(flat), *flat]

        else:
            conn += [len(c), *c]

    return pv.UnstructuredGrid(np.array(conn), np.array([t for t, _ in cells], dtype=np.uint8), np.asarray(pts, float))


def polydata(pts, cells):
    """Vertices, lines and faces have to be in this order."""
    kinds = {k: [] for k in ("verts", "lines", "faces")}

    for t, c in cells:
        k = {0: "verts", 1: "lines", 2: "faces"}[geo.DIM[t]]
        kinds[k] += [len(c), *c]

    return pv.PolyData(np.asarray(pts, float), **{k: v for k, v in kinds.items() if v})


def structured(dims, kind, flat=None, axis=2):
    """
    Structured mesh of *dims* cells (0 for a flat axis).

    *flat* lists (axis, layer) of layers of cells of zero thickness ('struct' only).
    """
    coords = []

    for a, (n, c) in enumerate(zip(dims, (XS, YS, ZS))):
        c = list(c[: n + 1])

        for b, layer in flat or []:
            if b == a:
                dz = c[layer + 1] - c[layer]
                c = c[: layer + 1] + [v - dz for v in c[layer + 1 :]]

        coords.append(c)

    if kind == "image":
        m = pv.ImageData(dimensions=[n + 1 for n in dims], spacing=(1.0, 0.5, 2.0), origin=(0.0, 0.0, 0.0))

    elif kind == "rect":
        m = pv.RectilinearGrid(*[np.array(c) for c in coords])

    else:
        x, y, z = np.meshgrid(*coords, indexing="ij")
        m = pv.StructuredGrid(x, y, z)

    cells = geo.structured_cells([n + 1 for n in dims])

    return m, cells


def build(spec):
    mesh, cells = _build(spec)
    scale, shift = spec.get("scale", 1.0), np.array(spec.get("shift", [0.0, 0.0, 0.0]), float)

    if scale != 1.0 or shift.any():
        if isinstance(mesh, pv.ImageData):
            mesh.spacing = [scale * x for x in mesh.spacing]
            mesh.origin = [scale * x + d for x, d in zip(mesh.origin, shift)]

        elif isinstance(mesh, pv.RectilinearGrid):
            mesh.x, mesh.y, mesh.z = [scale * np.array(c, float) + d for c, d in zip((mesh.x, mesh.y, mesh.z), shift)]

        else:
            mesh.points = scale * np.array(mesh.points, float) + shift

    return mesh, cells


def _build(spec):
    k = spec["kind"]

    if k == "cells2d":
        pts, cells = cells2d(spec["dims"], spec["cells"])
        pts = place(pts, spec.get("axis", 2), spec.get("w", 0.0))

        if spec.get("type") == "poly":  # polydata have no type of their own for polygons with 4 corners
            cells = [(int(CT.QUAD), c) if t == int(CT.POLYGON) and len(c) == 4 else (t, c) for t, c in cells]

            return polydata(pts, cells), cells

        return ugrid(pts, cells), cells

    if k == "cells3d":
        pts, cells = cells3d(spec["dims"], spec["cells"])

        return ugrid(pts, cells), cells

    if k == "fan":  # n quads around a common edge
        n = spec["n"]
        pts = [(0, 0, 0), (0, 0, 1)]
        cells = []

        for i in range(n):
            a = 2 * np.pi * i / n
            pts += [(np.cos(a), np.sin(a), 0), (np.cos(a), np.sin(a), 1)]
            cells.append((int(CT.QUAD), [0, 2 + 2 * i, 3 + 2 * i, 1]))

        return ugrid(pts, cells), cells

    if k == "lines":
        pts = [(XS[i], 0.5 * (i % 2), 0.25 * i) for i in range(5)]
        cells = [(int(CT.LINE if len(c) == 2 else CT.POLY_LINE), list(c)) for c in spec["cells"]]

        return (polydata(pts, cells) if spec.get("type") == "poly" else ugrid(pts, cells)), cells

    if k == "structured":
        return structured(spec["dims"], spec["type"], spec.get("flat"))

    raise ValueError(k)


def boundary(t, c):
    """Edges of a cell of dimension 1 or 2, faces of a cell of dimension 3 (as lists of point ids)."""
    d = geo.DIM[t]

    if d == 1:
        return [list(e) for e in zip(c[:-1], c[1:])]

    if d == 2:
        c = [c[i] for i in (0, 1, 3, 2)] if t == int(CT.PIXEL) else list(c)

        return [list(e) for e in zip(c, c[1:] + c[:1])]

    if d == 3:
        return [list(f) for f in c] if t == int(CT.POLYHEDRON) else [[c[q] for q in f] for f in geo.FACES[t]]

    return []


def same_cycle(a, b):
    """Same polygon up to rotation and direction."""
    a, b = [int(x) for x in a], [int(x) for x in b]

    if len(a) != len(b):
        return False

    return any(b[i:] + b[:i] == a or (b[i:] + b[:i])[::-1] == a for i in range(len(b)))
