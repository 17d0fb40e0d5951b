"""
Explicit enumeration of polydata made of every combination of up to three lines and polylines from a pool (open, closed, touching, crossing at points, repeated), with and without vertices and faces
around them, every kind of point and cell data, and of all lists of such polydata. The real split_lines and merge_lines are compared with the lists of
coordinates and values the input was written down from, including the round trips.
"""

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C22"
PROPERTY = dict(
    title="Splitting and merging lines preserve order, geometry and data",
    statement=(
        "split_lines returns one polydata per line or polyline of the input, in order, with its points in order (one polyline, or its consecutive segments if as_lines), the point data of its points and its cell data on every segment, "
        "whatever other cells the input contains. merge_lines returns the lines of all inputs one after the other in the given order (as polylines or segments) with coincident points merged, "
        "and exactly the point and cell data common to all inputs, so that merging what was split gives the same lines again."
    ),
    quantifier=dict(over=["inputs"], text="all sets of lines and polylines, shared points, other cells, kinds of data and numbers of inputs"),
    why_tests_cant="Tests look at totals; misplaced data or order shows only with several lines of different lengths and mixed cells.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="split_lines", where="utils/_misc.py"), dict(name="merge_lines", where="utils/_misc.py")],
    state=["line cells", "point and cell data"],
    level_note="All sequences of up to 2 (quick) or 3 (thorough) lines from a pool of 7 with all kinds of data; all lists of up to 3 polydata with data missing in any of them.",
)
ASSUMPTIONS = []

PTS = np.array([(0, 0, 0), (1, 0, 0.5), (2, 1, 0), (0, 2, 1), (3, 3, 3), (0.5, 0.5, 0)], float)
POOL = [(0, 1), (1, 2), (2, 1, 0), (0, 1, 2, 3), (0, 1, 2, 0), (3, 4, 5), (5, 4)]
DATA = ["scalar", "int", "vector", "text"]


def gen_split(n_max):
    def g(ctx):
        n = ctx.choose("n", list(range(1, n_max + 1)), free=True)
        lines = [list(ctx.choose(f"l{i}", POOL, free=True)) for i in range(n)]
        extra = ctx.choose("extra", ("", "verts", "faces", "both"), free=True)
        shared = ctx.flag("separate")

        return dict(op="split", lines=lines, extra=extra, shared=not shared, as_lines=not ctx.flag("polyline", free=True))

    return g


def gen_merge(n_max, pool):
    def g(ctx):
        n = ctx.choose("n", list(range(1, n_max + 1)), free=True)
        sets = []

        for i in range(n):
            k = ctx.choose(f"k{i}", (1, 2), free=True)
            lines = [list(ctx.choose(f"l{i}{j}", pool, free=True)) for j in range(k)]
            sets.append(dict(lines=lines, drop=ctx.choose(f"d{i}", ("", "point", "cell", "scalar", "vector"))))

        return dict(op="merge", sets=sets, as_lines=not ctx.flag("polyline", free=True))

    return g


def spaces(tier):
    if tier == "quick":
        return [("split", gen_split(2), None), ("merge", gen_merge(2, POOL[2:5]), 1), ("merge3", gen_merge(3, POOL[1:3]), 0)]

    return [("split", gen_split(3), None), ("merge", gen_merge(2, POOL[:5]), 2), ("merge3", gen_merge(3, POOL[1:4]), 0), ("data3", gen_merge(3, POOL[1:3]), 3)]


def values(kind, i):
    return {"scalar": 0.5 + i, "int": 10 + i, "vector": [i, 2.0 * i, -1.0 - i], "text": "abcdefghijkl"[i % 12] * (1 + i % 3)}[kind]


def build(lines, extra, shared, base=0):
    """Polydata plus the model: list of (coordinates, point values, cell values)."""
    pts, cells, model, pdat, cdat = [], [], [], [], []

    if shared:
        pts = PTS.tolist()

    for ids in lines:
        if not shared:
            new = list(range(len(pts), len(pts) + len(ids)))
            pts += PTS[ids].tolist()
            ids = new

        cells.append(ids)

    np_ = len(pts)
    verts = [1, 0, 1, np_ - 1] if extra in ("verts", "both") else []
    faces = [3, 0, 1, 2] if extra in ("faces", "both") and np_ > 2 else []
    nv, nf = len(verts) // 2, len(faces) // 4
    flat = [q for c in cells for q in (len(c), *c)]
    kw = {}

    if verts:
        kw["verts"] = verts

    if faces:
        kw["faces"] = faces

    mesh = pv.PolyData(np.array(pts, float), lines=flat, **kw)

    for k in DATA:
        mesh.point_data["p" + k] = np.array([values(k, base + i) for i in range(np_)])
        mesh.cell_data["c" + k] = np.array([values(k, base + 7 + i) for i in range(nv + len(cells) + nf)])

    for j, c in enumerate(cells):
        model.append(
            (
                np.array(pts)[c],
                {"p" + k: [values(k, base + i) for i in c] for k in DATA},
                {"c" + k: values(k, base + 7 + nv + j) for k in DATA},
            )
        )

    return mesh, model


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)

    return a.shape == b.shape and (np.array_equal(a, b) if a.dtype.kind == "U" else np.allclose(a.astype(float), np.asarray(b, float)))


def compare_line(line, m, as_lines, what):
    xyz, pd, cd = m
    n = len(xyz)
    check(isinstance(line, pv.PolyData), "{} is not a polydata", what)
    check(same(line.points, xyz), "{}: points", what)
    cells = [[int(q) for q in c] for _, c in geo.cells_of(line)]
    exp = [[i, i + 1] for i in range(n - 1)] if as_lines else [list(range(n))]
    check(cells == exp, "{}: cells {} instead of {}", what, cells, exp)
    check(set(line.point_data.keys()) - geo.BOOKKEEPING == set(pd), "{}: point data {}", what, line.point_data.keys())
    check(set(line.cell_data.keys()) - geo.BOOKKEEPING == set(cd), "{}: cell data {}", what, line.cell_data.keys())

    for k, v in pd.items():
        check(same(line.point_data[k], v), "{}: point data '{}' {} instead of {}", what, k, line.point_data[k], v)

    for k, v in cd.items():
        check(same(line.cell_data[k], [v] * len(cells)), "{}: cell data '{}' {} instead of {}", what, k, line.cell_data[k], v)


def compare_merged(out, model, as_lines, pkeys, ckeys):
    check(isinstance(out, pv.PolyData) and out.n_verts == 0 and out.n_faces_strict == 0, "not a polydata with lines")
    exp = []

    for xyz, pd, cd in model:
        if as_lines:
            exp += [(xyz[i : i + 2], {k: pd[k][i : i + 2] for k in pkeys}, cd) for i in range(len(xyz) - 1)]

        else:
            exp.append((xyz, pd, cd))

    cells = [[int(q) for q in c] for _, c in geo.cells_of(out)]
    check(len(cells) == len(exp), "{} lines instead of {}", len(cells), len(exp))
    pts = np.array(out.points)
    check(len(np.unique(pts, axis=0)) == len(pts), "coincident points are not merged")
    check(set(out.cell_data.keys()) - geo.BOOKKEEPING == ckeys, "cell data {} instead of {}", out.cell_data.keys(), ckeys)
    check(set(out.point_data.keys()) - geo.BOOKKEEPING == pkeys, "point data {} instead of {}", out.point_data.keys(), pkeys)

    for i, (c, (xyz, pd, cd)) in enumerate(zip(cells, exp)):
        check(same(pts[c], xyz), "line {} is not where it should be", i)

        for k in ckeys:
            check(same(out.cell_data[k][i], cd[k]), "cell data '{}' of line {} is {} instead of {}", k, i, out.cell_data[k][i], cd[k])

    # the value at a point is that of one of the coincident points
    ok = {}

    for xyz, pd, cd in model:
        for j, p in enumerate(xyz):
            for k in pkeys:
                ok.setdefault((tuple(p), k), []).append(pd[k][j])

    for j, p in enumerate(pts):
        for k in pkeys:
            check((tuple(p), k) in ok, "point {} belongs to no line", p)
            check(any(same(out.point_data[k][j], v) for v in ok[tuple(p), k]), "point data '{}' at {}", k, p)


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if case["op"] == "split":
        mesh, model = build(case["lines"], case["extra"], case["shared"])
        out = rec.call(pvg.split_lines, mesh, as_lines=case["as_lines"])
        check(len(out) == len(model), "{} lines instead of {}", len(out), len(model))

        for i, (a, m) in enumerate(zip(out, model)):
            compare_line(a, m, case["as_lines"], f"line {i}")

        if case["as_lines"]:
            default = pvg.split_lines(mesh)
            check(len(default) == len(out) and all(x.n_lines == y.n_lines for x, y in zip(default, out)), "as_lines is not the default")

        # round trip
        again = rec.call(pvg.merge_lines, pvg.split_lines(mesh, as_lines=False), as_lines=case["as_lines"])
        compare_merged(again, model, case["as_lines"], set(model[0][1]), set(model[0][2]))
        rec.outcome("split", len(out), *[o.points for o in out])
        return

    inp, model = [], []
    pkeys, ckeys = {"p" + k for k in DATA}, {"c" + k for k in DATA}

    for i, s in enumerate(case["sets"]):
        mesh, m = build(s["lines"], "", True, 3 * i)
        d = s["drop"]

        for k in [x for x in mesh.point_data.keys()]:
            if d == "point" or k == "p" + d:
                del mesh.point_data[k]
                pkeys.discard(k)

        for k in [x for x in mesh.cell_data.keys()]:
            if d == "cell" or k == "c" + d:
                del mesh.cell_data[k]
                ckeys.discard(k)

        inp.append(mesh)
        model += m

    out = rec.call(pvg.merge_lines, inp, as_lines=case["as_lines"])
    compare_merged(out, model, case["as_lines"], pkeys, ckeys)

    # splitting the merged lines again gives the lines (or segments) in the same order
    parts = rec.call(pvg.split_lines, out, as_lines=False)
    n = sum(len(x) - 1 for x, _, _ in model) if case["as_lines"] else len(model)
    check(len(parts) == n, "{} lines after splitting again instead of {}", len(parts), n)

    if not case["as_lines"]:
        for p, (xyz, _, _) in zip(parts, model):
            check(same(p.points, xyz), "line changed by merging and splitting")

    rec.outcome("merge", out.points, out.lines)
