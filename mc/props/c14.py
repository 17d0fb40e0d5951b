"""
Full product of small background meshes (every pattern of quads, triangles and missing cells of small lattices, a disc and a ring, both preferences) and all sets of up to k additional points of a generic grid; planes, dataset types, orientations, tolerances and offsets
are deviations.  Every expected cell is obtained by clipping the plane with the bisectors of all pairs of seeds and with the background cells, and compared with the polygon of the cell that carries the seed.
"""

import numpy as np
import pyvista as pv

from .. import geo, meshes, voro
from ..core import Skip, check

ID = "C14"
PROPERTY = dict(
    title="The Voronoi mesh is the Voronoi diagram of its seeds within the background mesh",
    statement=(
        "VoronoiMesh2D.generate_mesh returns one polygon per seed (centers or points of the background mesh and added points inside of it): the part of the background mesh nearer to that seed than to any other, whose coordinates are the cell data X, Y and Z, "
        "so that the cells tile the background mesh with its concave corners, holes and separate parts without gap or overlap. "
        "The result lies in the plane normal to the discarded axis, all cells are oriented as requested, neighbours share their points and every cell keeps the group of its seed; edges shorter than the minimum length are collapsed and nothing else moves, "
        "disconnected pieces of a cell become separate polygons with the data of the same seed, and ValueError is raised if a cell surrounds a hole."
    ),
    quantifier=dict(over=["inputs"], text="all backgrounds, sets of additional points and options within the bounds, with at least three seeds that are not on a line"),
    why_tests_cant="No test calls VoronoiMesh2D.",
    files=["pvgridder/core/voronoi.py", "pvgridder/utils/_misc.py"],
    mechanism=[
        dict(name="infinite regions", where="core/voronoi.py VoronoiMesh2D._generate_voronoi_tesselation"),
        dict(name="clipping and orientation", where="core/voronoi.py VoronoiMesh2D.generate_mesh"),
        dict(name="short edges", where="utils/_misc.py average_points"),
    ],
    state=["seeds", "active seeds", "regions"],
    level_note="All patterns of a 2x2 (quick) or 3x2 (thorough) lattice of backgrounds, all sets of up to two (quick) or three (thorough) additional points.",
)
ASSUMPTIONS = ["the background mesh has no pinch points; the seeds are distinct"]

EXTRA = [(0.31, 0.17), (1.83, 0.29), (0.57, 1.43), (2.11, 1.61), (1.23, 0.83), (-0.7, 0.4), (2.37, 0.07), (4.1, 2.9)]


def options(ctx):
    return dict(
        axis=ctx.choose("axis", (2, 1, 0)),
        type=ctx.choose("type", ("ug", "poly", "struct", "image", "rect")),
        orientation=ctx.choose("orientation", (None, "CW", "CCW")),
        min_length=ctx.choose("min_length", (None, 0.0, 0.05, 0.3)),
        infinity=ctx.choose("infinity", (None, 1e2, 1e5)),
        shift=ctx.choose("shift", (0.0, 1000.0)),
        scale=ctx.choose("scale", (1.0, 1000.0)),
        w=ctx.choose("w", (0.0, 3.5)),
        warp=ctx.flag("warp"),
        two=ctx.flag("two"),
        one=ctx.flag("one by one"),
        group=ctx.choose("group", (None, "cells", "default", "ignore")),
        qhull=ctx.choose("qhull", (None, "Qbb Qc Qz")),
    )


def subset(ctx, k_max):
    k = ctx.choose("k", range(k_max + 1), free=True)
    out = []

    for _ in range(k):
        left = [j for j in range(out[-1] + 1 if out else 0, len(EXTRA))]

        if not left:
            return None

        out.append(ctx.choose("x", left, free=True))

    return out


def gen_patterns(dims, codes, k_max):
    def g(ctx):
        cells = "".join(ctx.choose("c", codes, free=True) for _ in range(dims[0] * dims[1]))
        extra = subset(ctx, k_max)

        if extra is None or not valid(dims, cells):
            return None

        return dict(bg=dict(kind="cells2d", dims=dims, cells=cells), pref=ctx.choose("pref", ("cell", "point"), free=True), extra=extra, **options(ctx))

    return g


TURNS = (0.1, 0.3, 0.5, 0.7, np.pi / 4, 1.0, 1.3, np.pi / 3, 2.0, 2.5, 3.0, 4.0)


def gen_turned(names, k_max):
    """Rotated meshes: the seeds on their sides are aligned up to rounding errors."""
    named = gen_named(names, k_max)

    def g(ctx):
        c = named(ctx)
        return c and dict(c, turn=ctx.choose("turn", TURNS, free=True))

    return g


def gen_clusters(names, sizes):
    """A cluster of seeds whose cells are smaller than the minimum length, before or after another seed."""

    def g(ctx):
        bg = ctx.choose("bg", names, free=True)
        opt = options(Default())
        opt["min_length"] = ctx.choose("ml", (0.05, 0.15), free=True)
        n = ctx.choose("n", sizes, free=True)
        cluster = dict(n=n, d=ctx.choose("d", (0.01, 0.04, 0.1), free=True), at=ctx.choose("at", [(1.03, 0.97), (0.41, 0.37), (1.52, 1.07)], free=True), center=ctx.flag("center", free=True))
        extra = ctx.choose("extra", ([4], [], [0, 4]), free=True)

        return dict(bg=bg, pref=ctx.choose("pref", ("cell", "point"), free=True), extra=extra, cluster=cluster, first=ctx.flag("first", free=True), **opt)

    return g


class Default:
    def choose(self, name, opts, free=False):
        return list(opts)[0]

    def flag(self, name, free=False):
        return False


def turn(x, angle):
    if not angle:
        return x

    c, s = np.cos(angle), np.sin(angle)
    return np.asarray(x, float) @ np.array([[c, s], [-s, c]])


def gen_named(names, k_max):
    def g(ctx):
        bg = ctx.choose("bg", names, free=True)
        extra = subset(ctx, k_max)

        if extra is None:
            return None

        return dict(bg=bg, pref=ctx.choose("pref", ("cell", "point"), free=True), extra=extra, **options(ctx))

    return g


def lat(dims, cells):
    return dict(kind="cells2d", dims=dims, cells=cells)


HOLE = lat([3, 3], "qqqq-qqqq")
USHAPE = lat([3, 2], "qqqq-q")
LSHAPE = lat([3, 3], "qqqq--q--")
ISLANDS = lat([4, 3], "qq-qqq-t---q")
ISLAND = lat([5, 5], "qqqqqq---qq-q-qq---qqqqqq")
FULL = lat([3, 2], "qtqtuq")
DISC = dict(kind="disc", n=6, r=[0.0, 1.0, 2.5])
RING = dict(kind="disc", n=8, r=[1.0, 2.0, 3.0])


def valid(dims, cells):
    """Without pinch points, something left."""
    nx, ny = dims
    on = {(i % nx, i // nx) for i, c in enumerate(cells) if c != "-"}

    if not on:
        return False

    for j in range(ny - 1):
        for i in range(nx - 1):
            q = [(i + di, j + dj) in on for di, dj in ((0, 0), (1, 0), (1, 1), (0, 1))]

            if q in ([True, False, True, False], [False, True, False, True]):
                return False

    return True


def spaces(tier):
    if tier == "quick":
        return [
            ("patterns", gen_patterns([2, 2], "qt-", 1), 0),
            ("points", gen_named([FULL, USHAPE, HOLE], 2), 0),
            ("shapes", gen_named([LSHAPE, DISC, RING, ISLANDS, ISLAND], 1), 0),
            ("turned", gen_turned([FULL, HOLE, LSHAPE, lat([3, 3], "qqqqqqqqq"), lat([4, 2], "qqqqqqqq")], 1), 0),
            ("clusters", gen_clusters([FULL, USHAPE], (3, 5)), None),
            ("options", gen_named([lat([2, 2], "qqqq"), USHAPE, ISLANDS], 1), 1),
            ("pairs of options", gen_named([lat([2, 2], "qtqq")], 0), 2),
        ]

    return [
        ("patterns", gen_patterns([3, 2], "qtu-", 1), 0),
        ("points", gen_named([FULL, USHAPE, HOLE, LSHAPE, DISC, RING, ISLANDS, ISLAND], 3), 0),
        ("turned", gen_turned([FULL, HOLE, LSHAPE, USHAPE, lat([3, 3], "qqqqqqqqq"), lat([4, 2], "qqqqqqqq"), lat([5, 4], "q" * 20)], 2), 0),
        ("clusters", gen_clusters([FULL, USHAPE, HOLE, LSHAPE, DISC, RING], (2, 3, 4, 5, 6)), None),
        ("options", gen_named([lat([2, 2], "qqqq"), USHAPE, HOLE, DISC, RING], 2), 1),
        ("pairs of options", gen_named([lat([2, 2], "qtqq"), LSHAPE], 1), 2),
    ]


def disc(n, r):
    """Disc or ring of n sectors."""
    pts, cells = [], []
    ang = 2 * np.pi * np.arange(n) / n + 0.1
    ids = []

    for q in r:
        if q == 0.0:
            ids.append([len(pts)] * n)
            pts.append((1.5, 1.0))

        else:
            ids.append(list(range(len(pts), len(pts) + n)))
            pts += [(1.5 + q * np.cos(a), 1.0 + q * np.sin(a)) for a in ang]

    for a, b in zip(ids[:-1], ids[1:]):
        for i in range(n):
            j = (i + 1) % n
            c = [a[i], b[i], b[j], a[j]] if a[0] != a[1] else [a[i], b[i], b[j]]
            cells.append((int(pv.CellType.QUAD if len(c) == 4 else pv.CellType.TRIANGLE), c))

    return np.array(pts, float), cells


def background(spec, axis, typ, w=0.0, warp=False, shift=0.0, scale=1.0, angle=0.0):
    """Mesh and its cells as 2D polygons."""
    rect = spec["kind"] == "cells2d" and set(spec["cells"]) == {"q"}

    if typ in ("struct", "image", "rect"):
        if not rect or angle:
            raise Skip

        dims = list(spec["dims"])
        dims.insert(axis, 0)
        mesh, cells = meshes.structured(dims, typ)

        if typ == "struct":
            p = np.array(mesh.points, float) * scale + shift
            p[:, axis] = w + (0.1 * np.cos(np.arange(len(p))) if warp else 0.0)
            mesh.points = p

        elif shift or warp or scale != 1.0:
            raise Skip

        P = np.delete(np.array(mesh.points, float), axis, axis=1)

    else:
        if spec["kind"] == "disc":
            pts, cells = disc(spec["n"], spec["r"])

        else:
            pts, cells = meshes.cells2d(spec["dims"], spec["cells"])
            used = sorted({i for _, c in cells for i in c})  # no points without cells
            new = {p: i for i, p in enumerate(used)}
            pts, cells = pts[used], [(t, [new[i] for i in c]) for t, c in cells]

        if typ == "poly" and int(pv.CellType.PIXEL) in {t for t, _ in cells}:
            raise Skip

        P = turn(pts, angle) * scale + shift
        q = meshes.place(P, axis, w)

        if warp:
            q[:, axis] += 0.1 * np.cos(np.arange(len(q)))

        mesh = meshes.polydata(q, cells) if typ == "poly" else meshes.ugrid(q, cells)

    return mesh, cells, P


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    axis, scale = case["axis"], case["scale"]
    mesh, cells, P = background(case["bg"], axis, case["type"], case["w"], case["warp"], case["shift"], scale, case.get("turn", 0.0))
    polys = [P[geo.boundary_loops(t, c)] for t, c in cells]
    dom = voro.domain(polys)

    pieces = list(getattr(dom, "geoms", [dom]))

    if any(a.distance(b) < 1e-9 * scale for k, a in enumerate(pieces) for b in pieces[:k]):
        raise Skip

    kw, groups = {}, None
    n = len(cells)

    if case["group"] in ("cells", "ignore"):
        mesh.cell_data["CellGroup"] = np.arange(n) % 2 + 3
        mesh.user_dict["CellGroup"] = {"odd": 4, "even": 3}

        if case["group"] == "ignore":
            kw["ignore_groups"] = ["odd"]

    if case["group"] in ("default", "ignore"):
        kw["default_group"] = "dflt"

    if axis != 2 or case["two"]:
        kw["axis"] = axis

    dflt = "dflt" if "default_group" in kw else "default"

    if case["pref"] == "cell":
        seeds = [np.mean(p, axis=0) for p in polys]

        if case["group"] in ("cells", "ignore"):
            groups = ["even" if i % 2 == 0 else "odd" if case["group"] == "cells" else dflt for i in range(n)]

        else:
            groups = [dflt] * n

    else:
        kw["preference"] = "point"
        seeds = list(P)
        groups = [dflt] * len(P)

    vor = rec.call(pvg.VoronoiMesh2D, mesh, **kw)
    inside = lambda x: any(
        all(s * ((b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0])) > 0 for a, b in zip(p, np.roll(p, -1, axis=0))) for p in polys for s in [np.sign(geo.signed_area2(p))]
    )
    extra = turn(np.array([EXTRA[i] for i in case["extra"]], float).reshape(-1, 2), case.get("turn", 0.0)) * scale + (case["shift"] if case["type"] in ("ug", "poly", "struct") else 0.0)

    if case.get("cluster"):
        c = case["cluster"]
        a = 2 * np.pi * np.arange(c["n"]) / c["n"] + 0.3
        ring = np.array(c["at"]) + c["d"] * np.column_stack((np.cos(a), np.sin(a)))
        ring = np.vstack((c["at"], ring)) if c["center"] else ring
        extra = np.vstack((ring, extra) if case["first"] else (extra, ring))

    arg = extra if case["two"] else meshes.place(extra, axis, 7.0 if case["warp"] else 0.0)

    if len(extra):
        for a in [arg[i : i + 1] for i in range(len(arg))] if case["one"] else [arg]:
            r = rec.call(vor.add, a.tolist() if case["one"] else a, **({"group": "extra"} if case["group"] else {}))
            check(r is vor, "add does not return the mesh")

        for x in extra:
            if inside(x):
                seeds.append(x)
                groups.append("extra" if case["group"] else dflt)

    seeds = np.array(seeds, float)

    if len(seeds) < 3 or np.linalg.matrix_rank(seeds - seeds[0], tol=1e-6 * scale) < 2:
        raise Skip

    gk = {k: v for k, v in (("orientation", case["orientation"]), ("min_length", case["min_length"]), ("infinity", case["infinity"]), ("qhull_options", case["qhull"])) if v is not None}

    for k in ("min_length", "infinity"):
        if gk.get(k):
            gk[k] = gk[k] * scale

    ml = gk.get("min_length", 1e-4)
    dom, parts = voro.expected_cells(seeds, polys)

    # Are there short edges?
    V = []

    for i in range(len(seeds)):
        x0, y0, x1, y1 = dom.bounds
        h = 1e4 * max(x1 - x0, y1 - y0)
        V += voro.region(seeds, i, [(x0 - h, y0 - h), (x1 + h, y0 - h), (x1 + h, y1 + h), (x0 - h, y1 + h)])

    V = np.array(V)
    d = np.linalg.norm(V[:, None] - V[None], axis=2)
    short = ((d > 1e-6 * scale) & (d < 1.01 * ml)).any()

    if any(len(p.interiors) for pp in parts for p in pp):
        if short:
            raise Skip

        rec.raises(ValueError, vor.generate_mesh, **gk)
        return

    out = rec.call(vor.generate_mesh, **gk)
    check(isinstance(out, pv.UnstructuredGrid), "result is {}", type(out).__name__)
    got = voro.cells2d(out, axis)
    S = voro.seeds2d(out, axis)
    tol = 1e-6 * scale * (1 + case["shift"] / 100)
    sgn = -1 if case["orientation"] == "CW" else 1

    for k, c in enumerate(got):
        check(sgn * geo.signed_area2(c) > 0, "cell {} is not oriented {}", k, case["orientation"] or "CCW")

    names = {v: k for k, v in dict(out.user_dict["CellGroup"]).items()}
    G = [names.get(int(g)) for g in out.cell_data["CellGroup"]]
    area = sum(abs(geo.signed_area2(c)) for c in got)
    check(abs(area - dom.area) < 1e-6 * dom.area, "area {} instead of {}", area, dom.area)
    Q = np.asarray(out.points, float)
    d = np.abs(Q[:, None] - Q[None]).max(axis=2)
    check((d + np.eye(len(Q)) * 1e9).min() > 1e-9 * scale, "points are not shared")
    used = {i for _, c in geo.cells_of(out) for i in c}
    check(len(used) == len(Q), "points without cell")
    i = np.abs(S[:, None] - seeds[None]).max(axis=2)
    who = i.argmin(axis=1)
    check(i.min(axis=1).max() < tol, "X, Y, Z are not the seeds")

    for k, s in enumerate(who):
        check(G[k] == groups[s], "group {} instead of {} for seed {}", G[k], groups[s], seeds[s])

    from shapely import Polygon

    if not short:
        exp = [(i, p) for i, pp in enumerate(parts) for p in pp]
        check(len(got) == len(exp), "{} cells instead of {}", len(got), len(exp))
        left = list(range(len(exp)))

        for k, c in enumerate(got):
            poly = Polygon(c)
            check(poly.is_valid, "cell {} is not a simple polygon", k)
            best = min((j for j in left if exp[j][0] == who[k]), key=lambda j: exp[j][1].symmetric_difference(poly).area, default=None)
            check(best is not None, "too many cells for seed {}", seeds[who[k]].tolist())
            diff = exp[best][1].symmetric_difference(poly).area
            check(diff < 1e-6 * scale * scale * (1 + case["shift"] / 10), "cell of seed {} differs from the nearest points by an area of {}", seeds[who[k]].tolist(), diff)
            left.remove(best)

    else:
        check(len(set(who.tolist())) <= len(seeds), "seeds")

        for k, c in enumerate(got):
            poly = Polygon(c)
            check(poly.is_valid, "cell {} is not a simple polygon", k)
            b = dom.intersection(poly.buffer(2 * ml + tol))
            exp = [p for p in parts[who[k]] if p.intersects(b)]
            check(len(exp) > 0 and all(poly.within(p.buffer(2 * ml + tol)) for p in exp[:1]) or len(exp) > 1, "cell of seed {} moved by more than the minimum length", seeds[who[k]].tolist())

        for i, pp in enumerate(parts):
            if i not in who:
                check(all(p.buffer(-ml).is_empty for p in pp), "the cell of seed {} is lost", seeds[i].tolist())

    rec.outcome(len(got), tuple(len(c) for c in got))
