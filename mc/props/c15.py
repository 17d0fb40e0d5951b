"""
All sequences of up to k items (points, patches of cells that overlap each other, the boundary and the seeds, circles) with all priorities are added to a background mesh; circles and polylines are enumerated with all their options.
An explicit model keeps the seeds with their priority and group, applies the rule of precedence and gives the seeds that survive, whose cells are then compared with the diagram obtained by clipping with bisectors.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo, meshes, voro
from ..core import Skip, check

ID = "C15"
PROPERTY = dict(
    title="Voronoi items replace the seeds they cover by precedence; shapes are reproduced",
    statement=(
        "Items of a VoronoiMesh2D take precedence by the absolute value of their priority, then by the order they are added in: the center of each of their cells inside the background mesh becomes a seed with the group of the item, and existing seeds inside of these cells or at the same location "
        "are removed, unless the priority is negative and they have the same priority. "
        "A circle is reproduced as the regular polygon inscribed in it (as a single cell if plain) and a straight polyline as the strip of its width from end to end (with its padding), divided as requested, in any plane, as long as no other seed is closer to it than its constraint points; "
        "constraint points carry the default group, a constraint radius smaller than the radius raises ValueError, and everything outside of the background mesh is ignored."
    ),
    quantifier=dict(over=["histories", "inputs"], text="all sequences of items and priorities, all circles and polylines within the bounds"),
    why_tests_cant="No test calls VoronoiMesh2D.",
    files=["pvgridder/core/voronoi.py"],
    mechanism=[
        dict(name="precedence of items", where="core/voronoi.py VoronoiMesh2D.generate_mesh"),
        dict(name="constraint points", where="core/voronoi.py VoronoiMesh2D.add_circle, add_polyline"),
    ],
    state=["items", "active seeds", "priorities", "groups"],
    level_note="All sequences of two (quick) or three (thorough) items out of six with five priorities; circles and polylines with up to two deviations from the defaults.",
)
ASSUMPTIONS = ["no seed lies on the boundary of a cell of an item or of the background; no two seeds that coincide have the same priority, the second one negative"]

BG = dict(kind="cells2d", dims=[4, 3], cells="q" * 12)  # 0..4.5 x 0..2.5
FINE = 12  # cells per direction of the background of circles and polylines


# items in 2D coordinates: list of convex polygons or points
def grid(x0, y0, dx, dy, nx, ny, skew=0.13):
    f = lambda i, j: (x0 + i * dx + skew * j, y0 + j * dy - skew * i)

    return [[f(i, j), f(i + 1, j), f(i + 1, j + 1), f(i, j + 1)] for j in range(ny) for i in range(nx)]


MENU = {
    "P": ("points", [(0.71, 0.19), (1.75, 1.25), (2.61, 1.87)]),  # the second one is a center of the background
    "O": ("points", [(1.75, 1.25), (9.0, 1.0)]),
    "A": ("cells", grid(0.9, 0.63, 0.8, 0.7, 2, 1)),
    "B": ("struct", grid(1.45, 0.41, 0.6, 0.9, 2, 2, 0.0)),
    "T": ("poly", [[(0.23, 0.31), (2.3, 0.43), (1.1, 1.9)], [(2.3, 0.43), (2.9, 1.81), (1.1, 1.9)]]),
    "X": ("cells", grid(3.7, 1.1, 0.7, 0.9, 2, 2)),  # partly outside
    "F": ("cells", grid(7.0, 7.0, 0.7, 0.9, 1, 1)),  # outside
}
PRIORITIES = (0, 1, -1, 2, -2)


def gen_histories(k_max, menu):
    def g(ctx):
        k = ctx.choose("k", range(1, k_max + 1), free=True)
        items = []

        for _ in range(k):
            items.append([ctx.choose("item", menu, free=True), ctx.choose("priority", PRIORITIES, free=True)])

        return dict(
            items=items,
            pref=ctx.choose("pref", ("cell", "point")),
            axis=ctx.choose("axis", (2, 1, 0)),
            group=ctx.choose("group", (True, False, "own", "own+")),
            bgroup=ctx.flag("background groups"),
            again=ctx.flag("generate twice"),
        )

    return g


def gen_circle(ctx):
    return dict(
        shape="circle",
        n=ctx.choose("n", (12, 16, 9), free=True),
        radius=ctx.choose("radius", (0.8, 0.5)),
        ratio=ctx.choose("ratio", (None, 1.25, 1.0, 1.7, 0.9)),
        center=ctx.choose("center", ([2.03, 1.97], [0.21, 1.13], [3.91, 3.89], [9.0, 9.0], None), free=True),
        dim=ctx.choose("dim", (3, 2)),
        off=ctx.choose("off", (0.0, 2.5)),
        plain=ctx.flag("plain", free=True),
        two=ctx.flag("second circle"),
        axis=ctx.choose("axis", (2, 1, 0)),
        priority=ctx.choose("priority", (0, 1, -1)),
        group=ctx.choose("group", ("c", None)),
        inner=ctx.choose("points inside", (None, 0, 2, -3)),
    )


def gen_line(ctx):
    return dict(
        shape="line",
        n=ctx.choose("n", (2, 3, 4), free=True),
        angle=ctx.choose("angle", (0, 30, 90, 200), free=True),
        start=ctx.choose("start", ([1.51, 1.71], [-0.51, 2.03]), free=True),
        step=ctx.choose("step", (0.4, 0.3)),
        uneven=ctx.flag("uneven"),
        width=ctx.choose("width", (0.3, 0.5)),
        pref=ctx.choose("pref", (None, "point", "cell"), free=True),
        padding=ctx.choose("padding", (None, 0.2, 0.05)),
        constraint=ctx.choose("constraint", (None, 0, 2, [0, 1], [1, 0], [2, 1])),
        resolution=ctx.choose("resolution", (None, 2, 3, [0.0, 0.25, 1.0])),
        form=ctx.choose("form", ("array", "poly", "two", "lists")),
        axis=ctx.choose("axis", (2, 1, 0)),
        priority=ctx.choose("priority", (None, 1, -1)),
        group=ctx.choose("group", ("c", None)),
        inner=ctx.choose("points inside", (None, 0, 2)),
    )


def spaces(tier):
    if tier == "quick":
        return [("histories", gen_histories(2, "PABTX"), 0), ("options", gen_histories(1, "POABTXF"), 2), ("three", gen_histories3(((0, 1), (1, 0))), 0), ("circles", gen_circle, 1), ("lines", gen_line, 1)]

    return [("histories", gen_histories(3, "PABTX"), 0), ("options", gen_histories(2, "POABTXF"), 1), ("options of single items", gen_histories(1, "POABTXF"), None), ("circles", gen_circle, 2), ("lines", gen_line, 2)]


def gen_histories3(priorities):
    """All orders of three different items."""

    def g(ctx):
        order = ctx.choose("order", list(itertools.permutations("PABTX", 3)), free=True)
        pr = [ctx.choose("p", (0, 1, -1), free=True) for _ in order]

        return dict(items=[list(x) for x in zip(order, pr)], pref="cell", axis=2, group=True, bgroup=False, again=False)

    return g


# --------------------------------------------------------------------------- model
def inside(poly, x):
    """+1 inside, 0 on the boundary (within VTK's tolerance, a thousandth of the cell), -1 outside of a convex polygon."""
    poly = np.asarray(poly, float)
    lo, hi = poly.min(axis=0), poly.max(axis=0)

    if (x < lo - 0.1 * (hi - lo).max()).any() or (x > hi + 0.1 * (hi - lo).max()).any():
        return -1

    s = np.sign(geo.signed_area2(poly))
    q = np.roll(poly, -1, axis=0) - poly
    eps = 0.004 * float((q**2).sum(axis=1).max())
    d = s * (q[:, 0] * (x[1] - poly[:, 1]) - q[:, 1] * (x[0] - poly[:, 0]))

    return 1 if d.min() > eps else -1 if d.min() < -eps else 0


class Model:
    def __init__(self, bg, seeds, groups):
        self.bg = bg
        self.seeds = [(np.asarray(s, float), -np.inf, g) for s, g in zip(seeds, groups)]
        self.items = []

    def add(self, cells, seeds, priority, group):
        """cells[i] is a convex polygon (or None) with the seed seeds[i]."""
        self.items.append((cells, seeds, priority, group))

    def run(self):
        active = list(self.seeds)
        lo, hi = np.min([np.min(p, axis=0) for p in self.bg], axis=0), np.max([np.max(p, axis=0) for p in self.bg], axis=0)

        for cells, seeds, priority, group in sorted(self.items, key=lambda i: abs(i[2])):
            new, polys = [], []

            for k, (c, s) in enumerate(zip(cells, seeds)):
                if (s < lo - 5e-3).any() or (s > hi + 5e-3).any():
                    continue

                if ((np.abs(s - lo) < 5e-3) | (np.abs(s - hi) < 5e-3)).any():
                    raise Skip

                new.append((np.asarray(s, float), abs(priority), group[k] if isinstance(group, list) else group))
                polys.append(c)

            def covered(x):
                for (s, _, _), c in zip(new, polys):
                    if np.abs(s - x).max() < 1e-7:
                        return True

                    if c is not None:
                        w = inside(c, x)

                        if w == 0:
                            raise Skip

                        if w > 0:
                            return True

                return False

            active = [a for a in active if not (covered(a[0]) and (priority >= 0 or a[1] < abs(priority)))] + new

        S = np.array([a[0] for a in active])
        d = np.abs(S[:, None] - S[None]).max(axis=2) + np.eye(len(S))

        if d.min() < 1e-6:
            raise Skip

        return S, [a[2] for a in active]


def item_mesh(kind, shape, axis, off=0.0):
    if kind == "points":
        return meshes.place(shape, axis, off)

    pts, cells = [], []

    for c in shape:
        ids = []

        for p in c:
            p = tuple(np.round(p, 12))

            if p not in pts:
                pts.append(p)

            ids.append(pts.index(p))

        cells.append((int(pv.CellType.QUAD if len(ids) == 4 else pv.CellType.TRIANGLE), ids))

    P = meshes.place(pts, axis, off)

    if kind == "struct":  # 2 x 2
        xs, ys = [sorted({p[i] for p in pts}) for i in range(2)]
        c = [xs, ys]
        c.insert(axis, [off])

        return pv.StructuredGrid(*np.meshgrid(*c, indexing="ij"))

    return meshes.polydata(P, cells) if kind == "poly" else meshes.ugrid(P, cells)


def compare(out, axis, seeds, groups, bg, tol=1e-6):
    """Seeds, groups and polygons."""
    check(isinstance(out, pv.UnstructuredGrid), "result is {}", type(out).__name__)
    got = voro.cells2d(out, axis)
    S = voro.seeds2d(out, axis)
    names = {v: k for k, v in dict(out.user_dict["CellGroup"]).items()}
    G = [names.get(int(g)) for g in out.cell_data["CellGroup"]]

    return got, S, G


def polygons(got, S, seeds, bg, tol=1e-5):
    from shapely import Polygon

    who = voro.match(S, seeds, 1e-6)
    _, exp = voro.expected_cells(seeds, bg)
    short = 2e-4  # edges shorter than the default min_length are collapsed
    ends = [np.asarray(p.exterior.coords) for pp in exp for p in pp]

    if any(np.linalg.norm(np.diff(e, axis=0), axis=1).min() < short for e in ends):
        tol = max(tol, 2 * short)

    for k, c in enumerate(got):
        p = exp[who[k]]
        check(len(p) == 1, "model")
        diff = p[0].symmetric_difference(Polygon(c)).area
        check(diff < tol, "cell of seed {} differs by an area of {}", seeds[who[k]].tolist(), diff)

    return who, [p[0] for p in exp]


def run(case, rec):
    rec.state(str(case))

    if "items" in case:
        run_history(case, rec)

    else:
        run_shape(case, rec)


def run_history(case, rec):
    import pvgridder as pvg

    axis = case["axis"]
    pts, cells = meshes.cells2d(BG["dims"], BG["cells"])
    bg = [pts[c] for _, c in cells]
    mesh = meshes.ugrid(meshes.place(pts, axis, 1.5), cells)
    n = len(cells) if case["pref"] == "cell" else len(pts)
    groups = ["default"] * n

    if case["bgroup"]:
        mesh.cell_data["CellGroup"] = np.arange(len(cells)) % 3
        mesh.user_dict["CellGroup"] = {"g0": 0, "g1": 1, "g2": 2}

        if case["pref"] == "cell":
            groups = [f"g{i % 3}" for i in range(n)]

    vor = rec.call(pvg.VoronoiMesh2D, mesh, axis=axis, preference=case["pref"])
    model = Model(bg, [np.mean(p, axis=0) for p in bg] if case["pref"] == "cell" else pts, groups)

    for k, (name, priority) in enumerate(case["items"]):
        kind, shape = MENU[name]
        m = item_mesh(kind, shape, axis, 0.5 * k)
        grp = [f"{name}{k}"] * len(shape) if case["group"] else ["default"] * len(shape)
        kw = {"group": grp[0]} if case["group"] is True else {}

        if isinstance(case["group"], str):
            if kind == "points":
                kw = {"group": grp[0]}

            else:
                m.cell_data["CellGroup"] = np.arange(m.n_cells) % 2
                m.user_dict["CellGroup"] = {"first": 0, "second": 1}
                grp = [("first", "second")[i % 2] for i in range(len(shape))]

                if case["group"] == "own+":
                    kw = {"group": "over"}
                    grp = ["over"] * len(shape)

        if priority:
            kw["priority"] = priority

        r = rec.call(vor.add, m, **kw)
        check(r is vor, "add does not return the mesh")

        if kind == "points":
            model.add([None] * len(shape), [np.array(p) for p in shape], priority, grp)

        else:
            model.add(shape, [np.mean(p, axis=0) for p in shape], priority, grp)

    # the model keeps the groups of each seed of an item
    seeds, exp = model.run()
    out = rec.call(vor.generate_mesh)

    if case["again"]:
        out = rec.call(vor.generate_mesh)

    got, S, G = compare(out, axis, seeds, exp, bg)
    who, _ = polygons(got, S, seeds, bg)

    for k, w in enumerate(who):
        check(G[k] == exp[w], "group {} instead of {} for the seed {}", G[k], exp[w], seeds[w].tolist())

    check(set(dict(out.user_dict["CellGroup"])) == set(exp), "groups {} instead of {}", dict(out.user_dict["CellGroup"]), sorted(set(exp)))
    rec.outcome(len(got), tuple(sorted(exp)))


def fine_background(axis):
    x = np.linspace(0.0, 4.0, FINE + 1)
    c = [x, x * 1.01]
    bg = [np.array([(c[0][i], c[1][j]), (c[0][i + 1], c[1][j]), (c[0][i + 1], c[1][j + 1]), (c[0][i], c[1][j + 1])]) for j in range(FINE) for i in range(FINE)]
    c.insert(axis, [0.0])

    return pv.StructuredGrid(*np.meshgrid(*c, indexing="ij")), bg


def run_shape(case, rec):
    import pvgridder as pvg
    from shapely import Polygon, unary_union

    axis = case["axis"]
    mesh, bg = fine_background(axis)
    seeds0 = [np.mean(p, axis=0) for p in bg]
    dflt = "default"
    vor = rec.call(pvg.VoronoiMesh2D, mesh, **({"axis": axis} if axis != 2 else {}))
    model = Model(bg, seeds0, [dflt] * len(bg))
    grp = case["group"] or dflt
    kw = {"group": case["group"]} if case["group"] else {}
    pr = case["priority"] or 0

    if case["priority"] is not None and (case["priority"] or case["shape"] == "line"):
        kw["priority"] = case["priority"]

    shapes = []  # (polygon, list of seeds) that have to be reproduced

    if case["shape"] == "circle":
        r, n = case["radius"], case["n"]
        cr = None if case["ratio"] is None else case["ratio"] * r
        rr = 1.5 * r if cr is None else cr
        dr = rr - r
        centers = [case["center"]] + ([[1.03, 3.01]] if case["two"] else [])

        for c in centers:
            k2 = dict(kw)

            if c is not None:
                arg = c if case["dim"] == 2 else meshes.place([c], axis, case["off"])[0]
                k2["center"] = arg

            if case["plain"]:
                k2["plain"] = True

            if cr is not None:
                k2["constraint_radius"] = cr

            if dr < 0:
                rec.raises(ValueError, vor.add_circle, r, resolution=n, **k2)
                return

            check(rec.call(vor.add_circle, r, resolution=n, **k2) is vor, "add_circle does not return the mesh")
            c = np.array([0.0, 0.0] if c is None else c)
            ang = 2 * np.pi * np.arange(n + 1) / n
            ring = lambda q: c + q * np.column_stack([np.cos(ang), np.sin(ang)])
            tri = lambda q: [np.array([c, a, b]) for a, b in zip(ring(q)[:-1], ring(q)[1:])]
            quad = lambda p, q: [np.array([a, b, e, d]) for a, b, d, e in zip(ring(p)[:-1], ring(q)[:-1], ring(p)[1:], ring(q)[1:])]
            inner = tri(r) if dr < 1e-12 else tri(r - dr) + quad(r - dr, r)

            if dr < 1e-12 and case["ratio"] != 1.0:
                raise Skip

            model.add(inner, [p.mean(axis=0) for p in inner], pr, grp)

            if dr > 1e-12:
                outer = quad(r, rr)
                model.add(outer, [p.mean(axis=0) for p in outer], 0, dflt)

            shapes.append((Polygon(ring(r)[:-1]), c, r))

    else:
        shapes, strips = line_items(case, model, vor, rec, kw, pr, grp, dflt)

    if case["inner"] is not None:  # two points inside of the shape, with another priority
        c = np.array((shapes[0][0] if case["shape"] == "circle" else shapes[0]).centroid.coords[0])
        p = c + np.array([[0.031, 0.047], [-0.053, 0.023]])
        rec.call(vor.add, meshes.place(p, axis), priority=case["inner"], group="inner")
        model.add([None, None], list(p), case["inner"], "inner")

    seeds, exp = model.run()
    out = rec.call(vor.generate_mesh)
    got, S, G = compare(out, axis, seeds, exp, bg)

    if not case.get("plain"):
        who, polys = polygons(got, S, seeds, bg)

        for k, w in enumerate(who):
            check(G[k] == exp[w], "group {} instead of {} for the seed {}", G[k], exp[w], seeds[w].tolist())

        # The shape itself, if it is not disturbed by other points
        if case["shape"] == "line" and case["inner"] is None and case["group"] and strips is not None and case["form"] != "two":
            u = unary_union([Polygon(c) for c, g in zip(got, G) if g == grp])
            d = u.symmetric_difference(strips).area
            check(d < 1e-5, "the polyline is not reproduced ({})", d)

        if case["shape"] == "circle" and case["ratio"] is None and not case["two"] and case["inner"] is None and case["group"] and case["center"] == [2.03, 1.97] and case["n"] >= 12 and case["radius"] == 0.8:
            u = unary_union([Polygon(c) for c, g in zip(got, G) if g == grp])
            d = u.symmetric_difference(unary_union([s[0] for s in shapes])).area
            check(d < 1e-5, "the circle is not reproduced ({})", d)

        rec.outcome(len(got))
        return

    # Fused cells: every cell is either completely inside of a circle or clearly outside
    _, parts = voro.expected_cells(seeds, bg)
    member = []

    for p in [q[0] for q in parts]:
        xy = np.array(p.exterior.coords)[:-1]
        w = -1

        for k, (_, c, r) in enumerate(shapes):
            lo, hi = xy.min(axis=0), xy.max(axis=0)
            cand = [xy.mean(axis=0), np.array(p.centroid.coords[0]), 0.5 * (lo + hi)]
            dist = [np.linalg.norm(q - c) for q in cand]

            if np.linalg.norm(xy - c, axis=1).max() < r + 1e-6:
                w = k

            elif min(dist) < r + 0.02 and not (np.linalg.norm(xy - c, axis=1).min() > r + 0.05):
                # centers close to the circle
                if max(dist) < r - 0.02:
                    w = k

                else:
                    raise Skip

        member.append(w)

    fused = {}

    for i, w in enumerate(member):
        fused.setdefault(w if w >= 0 else ("single", i), []).append(i)

    units = []

    for ids in fused.values():
        u = unary_union([parts[i][0].buffer(0) for i in ids])

        if u.geom_type != "Polygon":
            u = unary_union([parts[i][0].buffer(1e-9) for i in ids])

        if u.geom_type != "Polygon" or any(Polygon(h).area > 1e-6 for h in u.interiors):
            raise Skip

        units.append((u, ids))

    check(len(got) == len(units), "{} cells instead of {}", len(got), len(units))
    left = list(range(len(units)))

    for k, c in enumerate(got):
        p = Polygon(c)
        best = min(left, key=lambda j: units[j][0].symmetric_difference(p).area)
        d = units[best][0].symmetric_difference(p).area
        check(d < 1e-5, "cell at {} has no counterpart ({})", c.mean(axis=0).tolist(), d)
        left.remove(best)
        gs = {exp[i] for i in units[best][1]}

        if len(gs) == 1:
            check(G[k] in gs, "group {} instead of {}", G[k], gs)

    rec.outcome(len(got), "plain")


def line_items(case, model, vor, rec, kw, pr, grp, dflt):
    from shapely import Polygon, unary_union

    axis, n = case["axis"], case["n"]
    a = np.deg2rad(case["angle"])
    t = np.array([np.cos(a), np.sin(a)])
    nrm = np.array([-t[1], t[0]])
    steps = np.arange(n) * case["step"]

    if case["uneven"]:
        steps = steps + 0.07 * np.arange(n) ** 2

    lines = [np.array(case["start"]) + steps[:, None] * t]

    if case["form"] == "two":
        lines.append(np.array([0.57, 3.31]) + steps[:, None] * np.array([1.0, 0.0]))

    args = [meshes.place(p, axis, 0.0) for p in lines]

    if case["form"] == "array":
        arg = args[0]

    elif case["form"] == "lists":
        arg = args[0].tolist()

    else:
        pts = np.vstack(args)
        conn = []

        for k in range(len(args)):
            conn += [n, *range(k * n, (k + 1) * n)]

        arg = pv.PolyData(pts, lines=conn)

    for k, name in (("preference", "pref"), ("padding", "padding"), ("resolution", "resolution")):
        if case[name] is not None:
            kw[k] = case[name]

    con = case["constraint"]

    if con is not None:
        kw["constraint"] = tuple(con) if isinstance(con, list) else con

    c0, c1 = (1, 1) if con is None else con if isinstance(con, list) else (con, con)
    check(rec.call(vor.add_polyline, arg, case["width"], **kw) is vor, "add_polyline does not return the mesh")
    res = case["resolution"]
    perc = np.linspace(0, 1, (res or 1) + 1) if not isinstance(res, list) else np.array(res)
    perc = np.concatenate(([2 * perc[0] - perc[1]], perc, [2 * perc[-1] - perc[-2]]))
    shapes, exact = [], True

    for p in lines:
        d = (p[-1] - p[0]) / np.linalg.norm(p[-1] - p[0])
        m = np.array([-d[1], d[0]])
        s = (p - p[0]) @ d

        if case["pref"] != "point":
            pad = case["padding"] if case["padding"] is not None else 0.5 * case["width"]
            s = np.concatenate(([s[0] - pad], 0.5 * (s[:-1] + s[1:]), [s[-1] + pad]))

        ends = (s[0], s[-1])
        ds0, ds1 = s[1] - s[0], s[-1] - s[-2]
        s = np.concatenate((s[0] - ds0 * np.arange(c0, 0, -1), s, s[-1] + ds1 * np.arange(1, c1 + 1)))
        at = lambda i, j: p[0] + s[i] * d + case["width"] * (perc[j] - 0.5) * m
        main, cons = [], []

        for j in range(len(perc) - 1):
            for i in range(len(s) - 1):
                q = np.array([at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)])
                (main if 0 < j < len(perc) - 2 and c0 <= i < len(s) - 1 - c1 else cons).append(q)

        model.add(main, [q.mean(axis=0) for q in main], pr, grp)
        model.add(cons, [q.mean(axis=0) for q in cons], 0, dflt)
        w = 0.5 * case["width"]
        shapes.append(Polygon([p[0] + ends[a] * d + b * m for a, b in ((0, -w), (1, -w), (1, w), (0, w))]))

        if min(c0, c1) < 1 or case["start"][0] < 0 or (isinstance(res, list)):
            exact = False

        # the constraint cells have to be wide enough to keep the other seeds away
        if min(ds0, ds1) < 0.25 or case["width"] / (len(perc) - 3) < 0.25 or case["uneven"]:
            exact = False

    return shapes, (unary_union(shapes) if exact else None)
