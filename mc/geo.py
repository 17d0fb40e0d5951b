"""Geometry and mesh helpers. Nothing in here calls into pvgridder."""

from __future__ import annotations

import numpy as np
import pyvista as pv
import vtk


CT = pv.CellType
FACES = {
    int(CT.TETRA): [[0, 1, 3], [1, 2, 3], [2, 0, 3], [0, 2, 1]],
    int(CT.PYRAMID): [[0, 3, 2, 1], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    int(CT.WEDGE): [[0, 1, 2], [3, 5, 4], [0, 3, 4, 1], [1, 4, 5, 2], [2, 5, 3, 0]],
    int(CT.HEXAHEDRON): [
        [0, 4, 7, 3], [1, 2, 6, 5], [0, 1, 5, 4], [3, 7, 6, 2], [0, 3, 2, 1], [4, 5, 6, 7],
    ],
    int(CT.VOXEL): [
        [0, 4, 6, 2], [1, 3, 7, 5], [0, 1, 5, 4], [2, 6, 7, 3], [0, 2, 3, 1], [4, 5, 7, 6],
    ],
}
DIM = {
    int(CT.EMPTY_CELL): -1,
    int(CT.VERTEX): 0, int(CT.POLY_VERTEX): 0,
    int(CT.LINE): 1, int(CT.POLY_LINE): 1,
    int(CT.TRIANGLE): 2, int(CT.TRIANGLE_STRIP): 2, int(CT.POLYGON): 2, int(CT.PIXEL): 2,
    int(CT.QUAD): 2,
    int(CT.TETRA): 3, int(CT.VOXEL): 3, int(CT.HEXAHEDRON): 3, int(CT.WEDGE): 3,
    int(CT.PYRAMID): 3, int(CT.PENTAGONAL_PRISM): 3, int(CT.HEXAGONAL_PRISM): 3,
    int(CT.POLYHEDRON): 3,
}


# --------------------------------------------------------------------------- topology
def structured_cells(dims):
    """Point ids of the cells of a structured grid, in VTK's cell order and VTK's vertex order."""
    dims = [int(n) for n in dims]
    nx, ny, nz = dims
    pid = lambda i, j, k: i + nx * (j + ny * k)
    axes = [a for a in range(3) if dims[a] > 1]
    rng = [range(max(1, n - 1)) for n in dims]
    out = []

    for k in rng[2]:
        for j in rng[1]:
            for i in rng[0]:
                base = [i, j, k]

                def at(*off):
                    ijk = list(base)

                    for a, o in zip(axes, off):
                        ijk[a] += o

                    return pid(*ijk)

                if len(axes) == 3:
                    ids = [at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0),
                           at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)]
                    t = int(CT.HEXAHEDRON)

                elif len(axes) == 2:
                    ids = [at(0, 0), at(1, 0), at(1, 1), at(0, 1)]
                    t = int(CT.QUAD)

                elif len(axes) == 1:
                    ids = [at(0), at(1)]
                    t = int(CT.LINE)

                else:
                    ids = [at()]
                    t = int(CT.VERTEX)

                out.append((t, ids))

    return out


def faces_of_polyhedron(mesh, i):
    ids = vtk.vtkIdList()
    mesh.GetFaceStream(i, ids)
    s = [ids.GetId(k) for k in range(ids.GetNumberOfIds())]
    n, p, faces = s[0], 1, []

    for _ in range(n):
        faces.append(s[p + 1 : p + 1 + s[p]])
        p += s[p] + 1

    return faces


def cells_of(mesh):
    """List of (cell type, point ids | list of faces for polyhedra), ghost cells included."""
    if isinstance(mesh, (pv.StructuredGrid, pv.RectilinearGrid, pv.ImageData)):
        return structured_cells(mesh.dimensions)

    if isinstance(mesh, pv.PolyData):
        out = []

        for kind, arr in (("v", mesh.verts), ("l", mesh.lines), ("f", mesh.faces)):
            arr = np.asarray(arr)
            p = 0

            while p < arr.size:
                n = int(arr[p])
                ids = arr[p + 1 : p + 1 + n].tolist()
                p += n + 1
                t = {
                    "v": CT.VERTEX if n == 1 else CT.POLY_VERTEX,
                    "l": CT.LINE if n == 2 else CT.POLY_LINE,
                    "f": CT.TRIANGLE if n == 3 else CT.QUAD if n == 4 else CT.POLYGON,
                }[kind]
                out.append((int(t), ids))

        return out

    out = []
    types = np.asarray(mesh.celltypes)
    off = np.asarray(mesh.offset)
    con = np.asarray(mesh.cell_connectivity)

    for i, t in enumerate(types):
        if t == int(CT.POLYHEDRON):
            out.append((int(t), faces_of_polyhedron(mesh, i)))

        else:
            out.append((int(t), con[off[i] : off[i + 1]].tolist()))

    return out


def boundary_loops(t, ids):
    """2D cell -> ordered vertex loop."""
    return [ids[0], ids[1], ids[3], ids[2]] if t == int(CT.PIXEL) else list(ids)


def cell_faces(t, c):
    """3D cell -> list of faces as point ids (outward for a positively oriented cell)."""
    return c if t == int(CT.POLYHEDRON) else [[c[k] for k in f] for f in FACES[t]]


def cell_point_ids(t, c):
    return sorted({i for f in c for i in f}) if t == int(CT.POLYHEDRON) else list(c)


# --------------------------------------------------------------------------- measures
def area_vector(p):
    """Vector area (Newell) of a polygon."""
    p = np.asarray(p, dtype=float)
    q = p - p[0]

    return 0.5 * np.cross(q, np.roll(q, -1, axis=0)).sum(axis=0)


def signed_area2(p):
    """Signed area of a 2D polygon."""
    p = np.asarray(p, dtype=float)
    q = p - p[0]
    x, y = q.T

    return 0.5 * float((x * np.roll(y, -1) - np.roll(x, -1) * y).sum())


def signed_volume(pts, faces):
    """Signed volume enclosed by (planar) faces: positive if normals point outwards."""
    o = pts[faces[0][0]]
    v = 0.0

    for f in faces:
        a = area_vector(pts[f])
        v += float(a @ (pts[f].mean(axis=0) - o)) / 3.0

    return v


def cell_sizes(mesh):
    """Absolute measure of every cell (length, area or volume), from scratch."""
    pts = np.asarray(mesh.points, dtype=float)
    out = []

    for t, c in cells_of(mesh):
        d = DIM[t]

        if d == 1:
            out.append(float(np.linalg.norm(np.diff(pts[c], axis=0), axis=1).sum()))

        elif d == 2:
            out.append(float(np.linalg.norm(area_vector(pts[boundary_loops(t, c)]))))

        elif d == 3:
            out.append(abs(signed_volume(pts, cell_faces(t, c))))

        else:
            out.append(0.0)

    return np.array(out)


def polygon_centroid(p):
    """Area centroid of a planar polygon."""
    p = np.asarray(p, dtype=float)
    n = area_vector(p)
    n = n / np.linalg.norm(n)
    c, a = np.zeros(3), 0.0

    for i in range(1, len(p) - 1):
        w = 0.5 * float(np.cross(p[i] - p[0], p[i + 1] - p[0]) @ n)
        c += w * (p[0] + p[i] + p[i + 1]) / 3.0
        a += w

    return c / a


# --------------------------------------------------------------------------- mesh builders
def grid2d(nx, ny, axis=2, x0=(0.0, 0.0, 0.0), dx=None, warp=None):
    """Structured 2D grid of nx*ny cells, normal to *axis*, with slightly irregular spacing."""
    u = np.array([0.0, 1.0, 2.25, 3.0, 4.5, 5.25, 6.0, 7.25, 8.0])[: nx + 1]
    v = np.array([0.0, 1.5, 2.0, 3.25, 4.0, 5.5, 6.25, 7.0, 8.5])[: ny + 1]
    axes = [a for a in range(3) if a != axis]
    c = [np.zeros(1)] * 3
    c[axes[0]], c[axes[1]] = u, v
    X, Y, Z = np.meshgrid(*c, indexing="ij")
    g = pv.StructuredGrid(X + x0[0], Y + x0[1], Z + x0[2])

    if warp is not None:
        p = np.array(g.points, dtype=float)
        p[:, axis] += warp(p[:, axes[0]], p[:, axes[1]])
        g.points = p

    return g


def axes_of(axis):
    return [a for a in range(3) if a != axis]


# --------------------------------------------------------------------------- snapshots
def watchable(x):
    return isinstance(x, (pv.DataSet, np.ndarray, list, dict))


def _user_dict(mesh):
    try:
        if "_PYVISTA_USER_DICT" not in mesh.field_data:
            return "{}"

        s = "".join(str(x) for x in np.ravel(mesh.field_data["_PYVISTA_USER_DICT"]))  # one string or its characters

    except Exception:  # noqa: BLE001
        return "?"

    return s


def _copy(x):
    if isinstance(x, pv.DataSet):
        return snapshot(x)

    if isinstance(x, np.ndarray):
        return np.array(x)

    if isinstance(x, list):
        return [_copy(y) for y in x]

    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}

    return x


BOOKKEEPING = {"vtkOriginalPointIds", "vtkOriginalCellIds"}


def snapshot(x, bookkeeping=False):
    """
    Copy of everything a caller can see of *x*.

    pyvista.DataSet.extract_cells itself adds the VTK id arrays to its input, they are not part of a mesh unless asked for.
    """
    if isinstance(x, pv.DataSet):
        skip = set() if bookkeeping else BOOKKEEPING
        s = {
            "type": type(x).__name__,
            "points": np.array(x.points),
            "cells": _topology(x),
            "point_data": {k: np.array(x.point_data[k]) for k in x.point_data.keys() if k not in skip},
            "cell_data": {k: np.array(x.cell_data[k]) for k in x.cell_data.keys() if k not in skip},
            "field_data": {
                k: np.array(x.field_data[k])
                for k in x.field_data.keys()
                if k != "_PYVISTA_USER_DICT"
            },
            "user_dict": _user_dict(x),
        }

        return s

    return _copy(x)


def _topology(x):
    if isinstance(x, pv.PolyData):
        return [np.array(x.verts), np.array(x.lines), np.array(x.faces)]

    if isinstance(x, pv.UnstructuredGrid):
        poly = [
            faces_of_polyhedron(x, i)
            for i, t in enumerate(x.celltypes)
            if t == int(CT.POLYHEDRON)
        ]

        return [np.array(x.celltypes), np.array(x.offset), np.array(x.cell_connectivity), repr(poly)]

    return [np.array(x.dimensions)]


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)

        if a.shape != b.shape:
            return False

        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))

        return bool((a == b).all()) if a.size else True

    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))

    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)

    return a is b or a == b


def snapshot_diff(a, b):
    """Empty string if equal."""
    if isinstance(a, dict) and "type" in a and "cells" in a:
        for k in a:
            if not _eq(a[k], b[k]):
                if isinstance(a[k], dict):
                    ks = [x for x in sorted(set(a[k]) | set(b[k])) if not (x in a[k] and x in b[k] and _eq(a[k][x], b[k][x]))]

                    return f"{k} {ks}"

                return f"{k}"

        return ""

    return "" if _eq(a, b) else "value"


def mesh_digest_parts(mesh):
    parts = [type(mesh).__name__, np.asarray(mesh.points, dtype=float)]
    parts += _topology(mesh)

    for k in sorted(mesh.cell_data.keys()):
        parts += [k, np.asarray(mesh.cell_data[k])]

    return parts


# --------------------------------------------------------------------------- comparisons
def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)

    if a.shape != b.shape:
        return False

    if a.size == 0:
        return True

    scale = max(1.0, float(np.nanmax(np.abs(b))) if np.isfinite(b).any() else 1.0)

    return bool(np.allclose(a, b, rtol=0.0, atol=tol * scale, equal_nan=True))


def match_points(ref, pts, tol=1e-6):
    """Index in *pts* of every point of *ref* (-1 if absent)."""
    from scipy.spatial import cKDTree

    ref, pts = np.atleast_2d(np.asarray(ref, float)), np.asarray(pts, float)
    scale = max(1.0, float(np.abs(ref).max()))
    d, i = cKDTree(pts).query(ref)

    return np.where(d <= tol * scale, i, -1)
