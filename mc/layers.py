"""Reference model of layered meshes (stacks and extrusions). Nothing in here calls into pvgridder."""

from __future__ import annotations

import numpy as np
import pyvista as pv

from . import geo, model
from .core import check

U = np.array([0.0, 1.0, 2.25, 3.0, 4.5])
V = np.array([0.0, 1.5, 2.0, 3.25])
POLY_PTS = [(0, 0), (1, 0), (2, 0), (3.5, 0.25), (0, 1), (1, 1.25), (2.5, 1), (0.5, 2), (3, 2), (2, 3), (1, 3)]
POLY_CELLS = {
    "tri": [(5, [0, 1, 5]), (5, [0, 5, 4]), (5, [1, 2, 5]), (5, [2, 6, 5])],
    "quad": [(9, [0, 1, 5, 4]), (9, [1, 2, 6, 5]), (9, [2, 3, 8, 6])],
    "poly": [(7, [0, 1, 2, 6, 5]), (7, [5, 6, 8, 9, 10, 7])],
    "mixed": [(9, [0, 1, 5, 4]), (5, [4, 5, 7]), (9, [1, 2, 6, 5]), (7, [5, 6, 8, 9, 10, 7]), (5, [2, 3, 6])],
    "mixedcw": [(9, [4, 5, 1, 0]), (5, [7, 5, 4]), (7, [7, 10, 9, 8, 6, 5])],
    "one": [(5, [0, 1, 5])],
    "pixel": [(8, [0, 1, 2, 3]), (8, [1, 4, 3, 5])],
}
PIXEL_PTS = [(0, 0), (1, 0), (0, 2), (1, 2), (3, 0), (3, 2)]
STRUCT = ["s2x1", "s1x1", "s1x2", "s3x2", "image", "rect"]
UNSTR = list(POLY_CELLS)


def place(uv, axis, w=0.0, swap=False):
    """2D coordinates to 3D, normal to *axis*; u goes along the first remaining axis."""
    uv = np.asarray(uv, float)
    p = np.zeros((len(uv), 3))
    a, b = [i for i in range(3) if i != axis]
    p[:, a], p[:, b], p[:, axis] = uv[:, 0], uv[:, 1], w

    return p


def base_mesh(kind, axis, w=0.0, origin=(0.0, 0.0)):
    """A 2D mesh normal to *axis* -> (mesh, points, cells, dims | None)."""
    if kind in STRUCT:
        if kind == "image":
            u, v = np.array([0.0, 1.0, 2.0, 3.0]), np.array([0.0, 1.5, 3.0])

        elif kind == "rect":
            u, v = U[:4], V[:3]

        else:
            nu, nv = int(kind[1]), int(kind[3])
            u, v = U[: nu + 1], V[: nv + 1]

        u, v = u + origin[0], v + origin[1]
        c = [None] * 3
        a, b = [i for i in range(3) if i != axis]
        c[a], c[b], c[axis] = u, v, np.array([float(w)])
        dims = tuple(len(x) for x in c)
        X, Y, Z = np.meshgrid(*c, indexing="ij")
        pts = np.column_stack([q.ravel(order="F") for q in (X, Y, Z)])

        if kind == "image":
            sp = [1.0, 1.0, 1.0]
            sp[a], sp[b] = 1.0, 1.5
            m = pv.ImageData(dimensions=dims, spacing=sp, origin=[x[0] for x in c])

        elif kind == "rect":
            m = pv.RectilinearGrid(*c)

        else:
            m = pv.StructuredGrid()
            m.dimensions = dims
            m.points = pts

        return m, pts, geo.structured_cells(dims), dims

    uv = np.array(PIXEL_PTS if kind == "pixel" else POLY_PTS, float) + origin
    cells = POLY_CELLS[kind]
    used = sorted({i for _, c in cells for i in c})
    ren = {o: n for n, o in enumerate(used)}
    cells = [(t, [ren[i] for i in c]) for t, c in cells]
    pts = place(uv[used], axis, w)
    m = pv.UnstructuredGrid(
        np.concatenate([[len(c), *c] for _, c in cells]), [t for t, _ in cells], pts
    )

    return m, pts, cells, None


class Item:
    """Nodes of one item plus the options of the layers that lead to it."""

    def __init__(self, pts, res=None, method=None, priority=0, thickness=0.0, transition=False, group=None):
        self.pts, self.res, self.method = np.array(pts, float), res, method
        self.priority, self.thickness, self.transition, self.group = priority, thickness, transition, group


def cut(items, axis, up):
    """Pairwise cutting of consecutive items, in stacking order."""
    out = [it.pts.copy() for it in items]
    s = 1.0 if up else -1.0

    for i in range(1, len(items)):
        if items[i].transition:
            continue

        a, b = out[i - 1], out[i]

        for k in range(len(b)):
            gap = s * (b[k, axis] - a[k, axis])

            if gap < items[i].thickness:
                if items[i].priority < items[i - 1].priority:
                    b[k, axis] = a[k, axis] + s * items[i].thickness

                else:
                    a[k, axis] = b[k, axis] - s * items[i].thickness

    return out


def levels(items, pts):
    """Flat list of (item index, lower nodes, upper nodes)."""
    out = []

    for i in range(1, len(items)):
        t = model.perc(items[i].res, items[i].method)
        lv = [pts[i - 1] + x * (pts[i] - pts[i - 1]) for x in t]
        out += [(i - 1, lo, hi) for lo, hi in zip(lv[:-1], lv[1:])]

    return out


def coincide(a, b):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-9))


def verify_structured(mesh, dims, axis, lv, tol=1e-6, item_key=None):
    """Structured result: dimensions, every node by index, and (optionally) the ids of every cell."""
    check(isinstance(mesh, pv.StructuredGrid), "not a structured grid but {}", type(mesh).__name__)
    rd = list(dims)
    rd[axis] = len(lv) + 1
    check(list(mesh.dimensions) == rd, "dimensions {} instead of {}", list(mesh.dimensions), rd)
    pts = np.asarray(mesh.points, float)
    nodes = [lo for _, lo, _ in lv] + [lv[-1][2]]
    ref = np.zeros_like(pts)
    bd = list(dims)

    for k in range(rd[2]):
        for j in range(rd[1]):
            for i in range(rd[0]):
                ijk = [i, j, k]
                level = ijk[axis]
                ijk[axis] = 0
                ref[i + rd[0] * (j + rd[1] * k)] = nodes[level][ijk[0] + bd[0] * (ijk[1] + bd[1] * ijk[2])]

    check(geo.close(pts, ref, tol), "node coordinates differ from the layers (max {})", float(np.abs(pts - ref).max()))


def structured_index(dims, axis, n_layers):
    """(layer, column) of every cell of a structured result, in cell order."""
    cd = [max(1, n - 1) for n in dims]
    rd = list(cd)
    rd[axis] = n_layers
    out = []

    for k in range(rd[2]):
        for j in range(rd[1]):
            for i in range(rd[0]):
                ijk = [i, j, k]
                layer = ijk[axis]
                ijk[axis] = 0
                out.append((layer, ijk[0] + cd[0] * (ijk[1] + cd[1] * ijk[2])))

    return out


def verify_ghost(mesh, key, cells, lv):
    """Ghost flags: 32 for cells of columns without thickness in their item, absent if there are none."""
    ghost = np.asarray(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(mesh.n_cells, int)
    ref = np.zeros(mesh.n_cells, int)

    for n, (layer, col) in enumerate(key):
        c = cells[col][1]
        ref[n] = 32 if coincide(lv[layer][1][c], lv[layer][2][c]) else 0

    check(np.array_equal(ghost, ref), "ghost flags {} instead of {}", ghost.tolist(), ref.tolist())


VOLUME = {5: 13, 9: 12, 8: 12, 7: 42}


def unstructured_key(mesh, cells, lv, tol=1e-6):
    """
    Match every cell of an unstructured result with (layer, column) from its nodes alone; collapsed cells of
    the same column share their nodes and are told apart by their LayerId.
    """
    pts = np.asarray(mesh.points, float)
    got = geo.cells_of(mesh)
    check(len(got) == len(lv) * len(cells), "{} cells instead of {}", len(got), len(lv) * len(cells))
    scale = max(1.0, max(float(np.abs(hi).max()) for _, _, hi in lv))
    cent = np.array([pts[geo.cell_point_ids(t, c)].mean(axis=0) for t, c in got])
    rc, rk = [], []

    for layer, (_, lo, hi) in enumerate(lv):
        for col, (t, c) in enumerate(cells):
            p = np.vstack((lo[c], hi[c]))

            if coincide(lo[c], hi[c]):
                p = lo[c]

            rc.append(unique_rows(p).mean(axis=0))
            rk.append((layer, col))

    # distinct nodes only: collapsed corners are merged by the clean-up
    cent = np.array([unique_rows(pts[geo.cell_point_ids(t, c)]).mean(axis=0) for t, c in got])
    rc = np.array(rc)
    layer_id = np.asarray(mesh.cell_data["LayerId"]) if "LayerId" in mesh.cell_data else np.zeros(len(got))
    left = {i for i in range(len(rk))}
    key = []

    for n in range(len(got)):
        d = np.abs(rc - cent[n]).max(axis=1)
        cand = [i for i in np.flatnonzero(d <= 10 * tol * scale) if i in left]
        check(bool(cand), "cell {} (center {}) matches no layer cell", n, cent[n].round(4).tolist())
        cand.sort(key=lambda i: (rk[i][0] != layer_id[n], i))
        left.discard(cand[0])
        key.append(rk[cand[0]])

    return key


def unique_rows(p):
    p = np.asarray(p, float)
    keep = []

    for q in p:
        if not any(np.abs(q - r).max() <= 1e-6 * max(1.0, np.abs(q).max()) for r in keep):
            keep.append(q)

    return np.array(keep)


def verify_unstructured(mesh, cells, lv, key, tol=1e-6):
    """Unstructured result: cell types and nodes in VTK order (faces for polyhedra)."""
    check(isinstance(mesh, pv.UnstructuredGrid), "not an unstructured grid but {}", type(mesh).__name__)
    pts = np.asarray(mesh.points, float)

    for (t, c), (layer, col) in zip(geo.cells_of(mesh), key):
        bt, bc = cells[col]
        _, lo, hi = lv[layer]

        if bt == 8:
            bc = [bc[0], bc[1], bc[3], bc[2]]

        check(t == VOLUME[bt], "cell type {} instead of {}", t, VOLUME[bt])

        if t != 42:
            ref = np.vstack((lo[bc], hi[bc]))
            check(geo.close(pts[c], ref, tol), "nodes of a cell of layer {} differ", layer)

        else:
            n = len(bc)
            faces = [lo[bc], hi[bc]] + [
                np.array([lo[bc[i]], lo[bc[(i + 1) % n]], hi[bc[(i + 1) % n]], hi[bc[i]]]) for i in range(n)
            ]
            check(len(c) == len(faces), "{} faces instead of {}", len(c), len(faces))
            left = [unique_rows(f) for f in faces]

            for f in c:
                q = unique_rows(pts[f])
                hit = [k for k, w in enumerate(left) if same_rows(q, w, 10 * tol)]
                check(bool(hit), "a face of a polyhedron differs")
                left.pop(hit[0])


def same_rows(a, b, tol):
    """Equal as sets of points."""
    if len(a) != len(b):
        return False

    scale = max(1.0, float(np.abs(b).max()))

    return all(np.abs(b - q).max(axis=1).min() <= tol * scale for q in a)


def conforming(mesh, cells, lv, tol=1e-6):
    """Nodes of an unstructured result are merged: as many as distinct node positions."""
    nodes = np.vstack([lo for _, lo, _ in lv] + [lv[-1][2]])
    used = sorted({i for _, c in cells for i in c})
    n = len(lv[0][1])
    nodes = np.vstack([nodes[k * n : (k + 1) * n][used] for k in range(len(lv) + 1)])
    n_ref = n_distinct(nodes, tol)
    check(mesh.n_points == n_ref, "{} nodes instead of {}", mesh.n_points, n_ref)


def n_distinct(p, tol=1e-6):
    """Number of distinct positions (clusters of points closer than the tolerance)."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    from scipy.spatial import cKDTree

    p = np.asarray(p, float)
    pairs = cKDTree(p).query_pairs(tol * max(1.0, float(np.abs(p).max())), output_type="ndarray")
    g = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(len(p), len(p)))

    return int(connected_components(g, directed=False)[0])
