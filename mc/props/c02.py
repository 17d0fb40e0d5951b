"""
Deviation-bounded product of plane x container of both lines x order of the stored points x number of nodes x resolution/method x
attached data x coinciding nodes. Each case builds the surface with the real generator and compares
dimensions, every coordinate (by structured index), every repeated data value and the ghost flags with a
reference computed by explicit loops; error cases have to raise ValueError.
"""

import numpy as np
import pyvista as pv

from .. import geo, model
from ..core import check

ID = "C02"
PROPERTY = dict(
    title="Ruled surfaces between two lines are exact in all six planes",
    statement=(
        "StructuredSurface(line_a, line_b, plane, resolution, method) returns a structured grid whose node (i, j) is "
        "line_a[i] + t_j * (line_b[i] - line_a[i]), where t_j are the subdivision positions, the first letter of the "
        "plane is the index axis that follows the line and the second one the axis that goes from line_a to line_b "
        "('xy', 'yx', 'xz', 'zx', 'yz', 'zy'), whether lines are given as arrays, segment meshes, one polyline cell or "
        "the outline of a polygon face. Point and cell data of line_a (scalars and vectors) are repeated on "
        "every node and cell issued from the same line node and segment, and cells whose nodes collapse to zero area "
        "get vtkGhostType 32 while all others get 0. Lines with different numbers of points and unknown planes raise "
        "ValueError."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every plane, line representation, number of nodes, resolution, method, attached data and collapse pattern",
    ),
    why_tests_cant="The tests build one surface per plane and compare the sum of its coordinates; no data, no collapsed "
    "cells, no mixed representations.",
    files=["pvgridder/core/_helpers.py", "pvgridder/core/geometric_objects.py"],
    mechanism=[
        dict(name="plane-dependent layout of nodes", where="core/_helpers.py generate_surface_from_two_lines"),
        dict(name="data repetition and ghost flags", where="core/_helpers.py generate_surface_from_two_lines"),
    ],
    level_note="Lines of 2 to 6 nodes; coordinates compared to 1e-6 (float32 inputs 1e-5).",
)
ASSUMPTIONS = ["The segments of line_a are stored in order along the line when it carries cell data"]

PLANES = ["xy", "yx", "xz", "zx", "yz", "zy"]
KINDS = ["segments", "array", "list", "polyline", "face", "f32"]
DATA = ["all", "none", "point", "cell", "pvec", "cvec", "int", "bool"]
RES = [2, None, 1, 3, 5, [0.0, 0.3, 1.0], [0.5, 0.0, 0.9], 0]
COLLAPSE = ["no", "first", "last", "middle", "all", "one_node"]


def gen(nmax, free_all):
    def g(ctx):
        plane = ctx.choose("plane", PLANES, free=True)
        ka = ctx.choose("ka", KINDS, free=True)
        face = ka == "face"
        n = ctx.choose("n", [4, 5, 6, 7][: nmax - 2] if face else [3, 2, 4, 5, 6, 7][:nmax], free=free_all)
        kb = ctx.choose("kb", ["face"] if face else [k for k in KINDS if k != "face"])
        data = ctx.choose("data", DATA if ka in ("segments", "polyline", "face") else ["none"], free=free_all)

        if ka in ("polyline", "face") and data not in ("none", "point", "pvec", "int"):
            return None

        return dict(
            plane=plane, n=n, ka=ka, kb=kb, data=data,
            res=ctx.choose("res", RES),
            method=ctx.choose("method", model.METHODS),
            collapse=ctx.choose("collapse", COLLAPSE, free=free_all),
            shape=ctx.choose("shape", ["skew", "flat", "far"]),
            store=ctx.choose(
                "store", ["ordered", "permuted", "reversed", "second"] if data == "none" else
                ["ordered", "permuted", "reversed"] if data in ("point", "pvec", "int") else ["ordered"]),
        )

    return g


def gen_large(ctx):
    ka = ctx.choose("ka", ["segments", "polyline", "array"], free=True)

    return dict(
        plane=ctx.choose("plane", PLANES[:2], free=True), n=ctx.choose("n", [1002, 1500], free=True), ka=ka, kb=ka, data="all" if ka == "segments" else "none",
        res=1, method=None, collapse="no", shape="flat", store="ordered",
    )


def gen_err(ctx):
    return dict(
        plane=ctx.choose("plane", PLANES + ["xx", "yxz", ""], free=True),
        na=ctx.choose("na", [2, 3, 4], free=True),
        nb=ctx.choose("nb", [3, 2, 5], free=True),
        kind=ctx.choose("kind", ["array", "segments"], free=True),
    )


def spaces(tier):
    if tier == "quick":
        return [("surface", gen(4, False), 2), ("large", gen_large, None), ("errors", gen_err, None)]

    return [("surface", gen(6, True), 3), ("large", gen_large, None), ("errors", gen_err, None)]


def lines(case):
    n = case["n"]
    k = np.arange(n, dtype=float)
    a = np.column_stack((k * 1.5 + 0.25 * k**2, 0.5 * np.sin(k), 0.125 * k))
    b = np.column_stack((k * 1.25 + 0.5, 3.0 + 0.25 * k, 1.0 + 0.5 * np.cos(k)))

    if case["shape"] == "flat":
        a, b = a * [1, 1, 0], b * [1, 1, 0]

    elif case["shape"] == "far":
        a, b = a + [100.0, -50.0, 25.0], b + [100.0, -50.0, 25.0]

    # exactly representable in single precision
    a, b = np.round(a * 1024) / 1024, np.round(b * 1024) / 1024
    c = case["collapse"]
    ids = {"no": [], "first": [0, 1], "last": [n - 2, n - 1], "middle": [n // 2 - 1, n // 2] if n > 3 else [],
           "all": list(range(n)), "one_node": [0]}[c]
    b[ids] = a[ids]

    return a, b


def wrap(p, kind, store="ordered"):
    m = wrap_ordered(p, kind)

    if store == "ordered" or not isinstance(m, pv.PolyData):
        return m

    if store == "second":  # another line or face after the first one, which has to be ignored
        q = np.vstack((m.points, m.points[:3] + [50.0, 0, 0]))
        k = m.n_points
        extra = [3, k, k + 1, k + 2]

        if kind == "face":
            return pv.PolyData(q, faces=[*m.faces, *extra])

        return pv.PolyData(q, lines=[*m.lines, *([2, k, k + 1] if kind == "segments" else extra)]) if len(q) == k + 3 else m

    # points stored in another order than the one along the line, and points that belong to no line
    n = m.n_points
    ids = (np.arange(n) * 2 + 3) % n if n % 2 else np.roll(np.arange(n), 1)
    ids = ids[::-1] if store == "reversed" else ids
    at = np.empty(n, dtype=int)
    at[ids] = np.arange(n)  # point i is stored at at[i]
    q = np.vstack((m.points[ids], m.points[:1] - 7.0))
    cells, out, k = (m.faces if kind == "face" else m.lines), [], 0

    while k < len(cells):
        out += [cells[k], *at[cells[k + 1 : k + 1 + cells[k]]]]
        k += cells[k] + 1

    return pv.PolyData(q, faces=out) if kind == "face" else pv.PolyData(q, lines=out)


def wrap_ordered(p, kind):
    if kind == "array":
        return p

    if kind == "list":
        return p.tolist()

    if kind == "f32":
        return p.astype(np.float32)

    if kind == "segments":
        m = pv.lines_from_points(p)
        m.clear_data()
        return m

    if kind == "polyline":
        return pv.PolyData(p, lines=[len(p), *range(len(p))])

    # open chain without its closing node: the outline of a face closes itself
    return pv.PolyData(p[:-1], faces=[len(p) - 1, *range(len(p) - 1)])


def run(case, rec):
    import pvgridder as pvg

    if "na" in case:
        a = np.column_stack((np.arange(case["na"]), np.zeros(case["na"]), np.zeros(case["na"]))).astype(float)
        b = np.column_stack((np.arange(case["nb"]), np.ones(case["nb"]), np.zeros(case["nb"]))).astype(float)

        if case["kind"] == "segments":
            a, b = wrap(a, "segments"), wrap(b, "segments")

        rec.state(*[case[k] for k in ("plane", "na", "nb", "kind")])

        if case["plane"] not in PLANES or case["na"] != case["nb"]:
            rec.raises(ValueError, pvg.StructuredSurface, a, b, case["plane"])

        else:
            rec.call(pvg.StructuredSurface, a, b, case["plane"])

        return

    pa, pb = lines(case)

    if case["ka"] == "face":
        pa[-1], pb[-1] = pa[0], pb[0]

    a, b = wrap(pa, case["ka"], case["store"]), wrap(pb, case["kb"], case["store"])
    n = case["n"]
    pd, cd = {}, {}

    if case["data"] != "none":
        d = case["data"]
        rs = np.arange(n)

        if d in ("point", "all"):
            pd["p"] = rs * 1.5 - 2.0

        if d in ("pvec", "all"):
            pd["pv"] = np.column_stack((rs, rs**2, -rs)).astype(float)

        if d in ("cell", "all"):
            cd["c"] = np.arange(n - 1) * 10.0 + 1.0

        if d in ("cvec", "all"):
            cd["cv"] = np.column_stack((rs[1:], rs[1:] * 3.0))

        if d == "int":
            pd["i"] = rs * 7

            if case["ka"] == "segments":
                cd["i"] = np.arange(n - 1) * 5 + 1

        if d == "bool":
            cd["b"] = np.arange(n - 1) % 2 == 0

        if case["ka"] == "face":  # the outline closes at its first node
            pd = {k: np.concatenate((v[:-1], v[:1])) for k, v in pd.items()}

        at = [np.flatnonzero(np.all(pa == p, axis=1)) for p in np.asarray(a.points, dtype=float)] if pd else []

        for k, v in pd.items():
            a.point_data[k] = np.array([v[i[0]] if len(i) else np.full_like(v[0], -99) for i in at])

        for k, v in cd.items():
            a.cell_data[k] = v

    mesh = rec.call(pvg.StructuredSurface, a, b, case["plane"], case["res"], case["method"])
    t = model.perc(case["res"], case["method"])
    m = len(t)
    ax = {"x": 0, "y": 1, "z": 2}
    i_ax, j_ax = ax[case["plane"][0]], ax[case["plane"][1]]
    dims = [1, 1, 1]
    dims[i_ax], dims[j_ax] = n, m
    check(isinstance(mesh, pv.StructuredGrid), "not a structured grid")
    check(list(mesh.dimensions) == dims, "dimensions {} instead of {}", list(mesh.dimensions), dims)
    pts = np.asarray(mesh.points, dtype=float)
    ref = np.zeros_like(pts)
    cdims = [max(1, q - 1) for q in dims]
    pid = np.zeros(len(pts), dtype=int)
    cid = np.zeros(cdims[0] * cdims[1] * cdims[2], dtype=int)

    for i in range(n):
        for j in range(m):
            ijk = [0, 0, 0]
            ijk[i_ax], ijk[j_ax] = i, j
            g = ijk[0] + dims[0] * (ijk[1] + dims[1] * ijk[2])
            ref[g] = pa[i] + t[j] * (pb[i] - pa[i])
            pid[g] = i

            if i < n - 1 and j < m - 1:
                cid[ijk[0] + cdims[0] * (ijk[1] + cdims[1] * ijk[2])] = i

    tol = 1e-5 if "f32" in (case["ka"], case["kb"]) else 1e-6
    check(geo.close(pts, ref, tol), "node coordinates differ from the ruled surface")
    check(mesh.n_cells == len(cid), "number of cells")
    check(set(mesh.point_data.keys()) == set(pd), "point data {}", list(mesh.point_data.keys()))
    check(set(mesh.cell_data.keys()) == set(cd) | {"vtkGhostType"}, "cell data {}", list(mesh.cell_data.keys()))

    for k, v in pd.items():
        got = np.asarray(mesh.point_data[k])
        check(got.shape == v[pid].shape and geo.close(got, v[pid]), "point data '{}' not repeated along the subdivisions", k)

    ghost = np.asarray(mesh.cell_data["vtkGhostType"])
    gref = np.zeros(len(cid), dtype=int)
    same = np.all(pa == pb, axis=1)
    gref = np.where((same[:-1] & same[1:])[cid], 32, gref)
    sizes = geo.cell_sizes(mesh)
    gref = np.where((sizes < 1e-12) & (gref == 0), ghost, gref)  # rounding-sized areas are left open
    check(np.array_equal(ghost, gref), "ghost flags {} instead of {}", ghost.tolist(), gref.tolist())

    for k, v in cd.items():
        got = np.asarray(mesh.cell_data[k])
        check(got.shape == v[cid].shape and geo.close(got, v[cid]), "cell data '{}' not repeated along the subdivisions", k)

    rec.state(case["plane"], pts, ghost)
    rec.outcome(tuple(dims), int((ghost == 32).sum()), tuple(sorted(pd)), tuple(sorted(cd)))
