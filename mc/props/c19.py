"""
Full product of the presence and type of the cells of small lattices, catalogue of nested rings (holes, islands in holes, holes in islands, several of them, in every order of the cells), in the three coordinate planes and as warped surfaces, as every kind of dataset.
The oracle counts the cells on either side of every edge, walks the boundary edges into loops and nests the loops by a point-in-polygon test.
"""

import itertools
from collections import Counter

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import Skip, check

ID = "C19"
PROPERTY = dict(
    title="Boundary polygons are exactly the edges with a single cell, grouped by holes",
    statement=(
        "extract_boundary_polygons returns the boundary of a surface as polylines that cover every edge used by exactly one cell once and no other edge; wherever the boundary does not touch itself, every polyline is one closed loop and the loops are the connected parts of the boundary. "
        "With fill every loop comes with a polygon over the same points in order; with with_holes every group is an outer loop followed by exactly the holes in the region it bounds (an island within a hole is a group of its own), "
        "whatever the plane and the order of the cells, and filled groups have the area of the outer loop minus its holes."
    ),
    quantifier=dict(over=["inputs"], text="all cell patterns on small lattices, nestings of holes and islands, planes, dataset types and options"),
    why_tests_cant="Tests count polylines and sum coordinates of surfaces without holes.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="feature edges and stripping", where="utils/_misc.py extract_boundary_polygons"), dict(name="nesting of loops", where="utils/_misc.py extract_boundary_polygons")],
    state=["loops", "containers"],
    level_note="All patterns of 3x3 lattices of quads, fins on every edge, all subsets of the faces of a box; nestings of up to four levels.",
)
ASSUMPTIONS = ["holes and loops are only compared on boundaries that do not touch themselves (vtkStripper pairs the edges of a pinch point arbitrarily)"]


def ring_pattern(n, levels):
    """n x n pattern of nested square rings, levels[k] tells if ring k (from the outside) is solid."""
    out = []

    for j in range(n):
        for i in range(n):
            k = min(i, j, n - 1 - i, n - 1 - j)
            out.append("q" if levels[k] else "-")

    return "".join(out)


BLOCKS = {  # named patterns: (dims, rows)
    "ring": (3, 3, "qqq q-q qqq"),
    "two holes": (5, 3, "qqqqq q-q-q qqqqq"),
    "island": (5, 5, "qqqqq q---q q-q-q q---q qqqqq"),
    "two islands": (6, 5, "qqqqqq q----q q-qqXq q----q qqqqqq".replace("X", "-")),
    "two rings": (7, 3, "qqq-qqq q-q-q-q qqq-qqq"),
    "ring and square": (5, 3, "qqq-q q-q-q qqq-q"),
    "big hole": (5, 4, "qqqqq q---q q---q qqqqq"),
    "island with hole": (6, 6, None),
}


def gen_pattern(dims, codes):
    def g(ctx):
        cells = "".join(ctx.choose("cell", codes, free=True) for _ in range(dims[0] * dims[1]))

        if not cells.strip("-"):
            return None

        if any(c == "g" and i >= dims[0] and cells[i - dims[0]] != "-" for i, c in enumerate(cells)):
            return None  # hanging node

        return dict(dims=dims, cells=cells, **options(ctx))

    return g


def gen_large(ctx):
    """Boundaries of more than 1000 edges, with a hole as long."""
    n = ctx.choose("n", (520, 1100), free=True)
    hole = ctx.flag("hole", free=True)
    cells = "q" * n if not hole else "q" * n + "q" + "-" * (n - 2) + "q" + "q" * n

    return dict(dims=[n, 3 if hole else 1], cells=cells, axis=ctx.choose("axis", (2, 0), free=True), fill=ctx.flag("fill", free=True), holes=hole, type=ctx.choose("type", ("ug", "poly"), free=True), warp=None, reorder=None)


def options(ctx):
    return dict(
        axis=ctx.choose("axis", (2, 1, 0)),
        fill=ctx.flag("fill"),
        holes=ctx.flag("with_holes"),
        type=ctx.choose("type", ("ug", "poly", "lines", "split")),
        warp=ctx.choose("warp", (None, "bump", "tilt", "shift")),
        reorder=ctx.choose("reorder", (None, "reverse", "inside", "outside")),
    )


def gen_nested(ctx):
    name = ctx.choose("name", sorted(BLOCKS), free=True)
    nx, ny, rows = BLOCKS[name]

    if name == "island with hole":
        nx = ny = 7
        levels = [1, 0, 1, 0]
        cells = ring_pattern(7, levels)
        cells = cells[: 3 * 7 + 3] + ctx.choose("core", "-q", free=True) + cells[3 * 7 + 4 :]

    else:
        cells = rows.replace(" ", "")

    o = options(ctx)
    o["holes"] = ctx.choose("h", (True, False))

    return dict(dims=[nx, ny], cells=cells, code=ctx.choose("code", "qtr"), **o)


EDGES = [(a, a + 1) for j in range(3) for a in (3 * j, 3 * j + 1)] + [(a, a + 3) for a in range(6)]  # of a 2x2 lattice


def gen_fins(top):
    """Surfaces with fins: edges with three and more cells."""

    def g(ctx):
        cells = "".join(ctx.choose("cell", "q-", free=True) for _ in range(4))
        fins = []

        for k in range(top):
            last = fins[-1] if fins else -1
            f = ctx.choose(f"fin{k}", [None, *range(last + 1, 2 * len(EDGES))], free=True)  # upwards or downwards

            if f is None:
                break

            fins.append(f)

        if not fins:
            return None

        return dict(dims=[2, 2], cells=cells, fins=fins, **plain(ctx))

    return g


def gen_box(ctx):
    """All subsets of the faces of a box."""
    faces = [k for k in range(6) if ctx.flag("face", free=True)]

    return dict(dims=[1, 1], cells="", box=faces, **plain(ctx)) if faces else None


def plain(ctx):
    return dict(
        axis=ctx.choose("axis", (2, 1, 0)),
        fill=ctx.flag("fill"),
        holes=False,
        type=ctx.choose("type", ("ug", "poly", "split")),
        warp=ctx.choose("warp", (None, "bump", "shift")),
        reorder=ctx.choose("reorder", (None, "reverse")),
    )


BOX = [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]


def spaces(tier):
    if tier == "quick":
        return [("fins", gen_fins(1), 1), ("box", gen_box, 2), ("patterns", gen_pattern([3, 3], "q-"), 1), ("types", gen_pattern([2, 2], "q-tgr"), 1), ("nested", gen_nested, 3), ("large", gen_large, None)]

    return [("fins", gen_fins(2), 1), ("box", gen_box, None), ("patterns", gen_pattern([3, 3], "q-"), 3), ("patterns4x3", gen_pattern([4, 3], "q-"), 1), ("types", gen_pattern([2, 2], "q-tgruo"), 2), ("nested", gen_nested, None), ("large", gen_large, None)]


def grid(dims, codes):
    """As meshes.cells2d, on a lattice of any size."""
    nx, ny = dims
    pts = [(i + 0.25 * (i % 3), j + 0.125 * (j % 2)) for j in range(ny + 1) for i in range(nx + 1)]
    cells = []

    for c, (j, i) in zip(codes, [(j, i) for j in range(ny) for i in range(nx)]):
        a = i + j * (nx + 1)
        q = [a, a + 1, a + nx + 2, a + nx + 1]

        if c in "qr":
            cells.append((int(pv.CellType.QUAD), q if c == "q" else q[::-1]))

        elif c == "t":
            cells += [(int(pv.CellType.TRIANGLE), q[:3]), (int(pv.CellType.TRIANGLE), [q[0], q[2], q[3]])]

    return np.array(pts, float), cells


def inside(p, loop):
    x, y = p
    r = False

    for (x0, y0), (x1, y1) in zip(loop, loop[1:] + loop[:1]):
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            r = not r

    return r


def area2(p):
    x, y = np.asarray(p, float).T

    return 0.5 * float((x * np.roll(y, -1) - y * np.roll(x, -1)).sum())


def loops_of(edges):
    """Simple loops of a graph whose nodes have degree 2."""
    nb = {}

    for e in edges:
        a, b = tuple(e)
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)

    left, out = set(nb), []

    while left:
        s = min(left)
        loop, prev, cur = [s], None, s
        left.discard(s)

        while True:
            nxt = [n for n in nb[cur] if n != prev and n in left]

            if not nxt:
                break

            prev, cur = cur, min(nxt)
            loop.append(cur)
            left.discard(cur)

        out.append(loop)

    return out


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    code = case.get("code", "q")

    if case["space"].startswith("types"):
        p2, cells = meshes.cells2d(case["dims"], case["cells"])

    else:
        p2, cells = grid(case["dims"], case["cells"].replace("q", code))

    axis = case["axis"]
    pts = meshes.place(p2, axis, 0.0)
    quad = int(pv.CellType.QUAD)

    if "fins" in case:
        p2 = np.vstack((p2, p2, p2))
        pts = np.vstack((pts, pts, pts))
        pts[9:18, axis] = 0.7
        pts[18:, axis] = -0.6

        for f in case["fins"]:
            a, b = EDGES[f % len(EDGES)]
            k = 9 if f < len(EDGES) else 18
            cells.append((quad, [a, b, b + k, a + k]))

    elif "box" in case:
        p2 = np.array([(0, 0), (1, 0), (1.25, 1), (0, 1)] * 2, float)
        pts = meshes.place(p2, axis, 0.0)
        pts[4:, axis] = 1.0
        cells = [(quad, BOX[k]) for k in case["box"]]

    if case["warp"] == "bump":
        pts[:, axis] += 0.3 * np.sin(p2[:, 0]) + 0.2 * p2[:, 1] ** 2 / 9.0

    elif case["warp"] == "tilt":
        pts[:, axis] += 0.4 * p2[:, 0] + 0.3 * p2[:, 1]

    elif case["warp"] == "shift":
        pts += [1000.0, -500.0, 250.0]

    # Every permutation class of the cells changes the order in which the loops are found
    c = np.array([p2[ids].mean(axis=0) for _, ids in cells])
    r = np.abs(c - 0.5 * (p2.min(axis=0) + p2.max(axis=0))).max(axis=1)
    order = {None: range(len(cells)), "reverse": range(len(cells))[::-1], "inside": np.argsort(r, kind="stable"), "outside": np.argsort(-r, kind="stable")}[case["reorder"]]
    cells = [cells[i] for i in order]
    cnt = Counter(frozenset(e) for t, ids in cells for e in meshes.boundary(t, ids))
    bnd = [e for e, n in cnt.items() if n == 1]
    deg = Counter(p for e in bnd for p in e)
    pinch = any(d > 2 for d in deg.values())

    if case["type"] == "lines":
        if pinch:
            raise Skip

        loops0 = loops_of(bnd)
        mesh = pv.PolyData(pts, lines=[x for lp in loops0 for x in (len(lp) + 1, *lp, lp[0])])

    elif case["type"] == "split":  # no cell shares its points
        mesh = meshes.ugrid(np.vstack([pts[ids] for _, ids in cells]), [(t, list(range(k, k + len(ids)))) for k, (t, ids) in zip(np.cumsum([0] + [len(ids) for _, ids in cells]), cells)])

    elif case["type"] == "poly":
        mesh = meshes.polydata(pts, cells)

    else:
        mesh = meshes.ugrid(pts, cells)

    holes, fill = case["holes"], case["fill"]

    if holes and pinch:
        raise Skip

    if holes and fill and case["warp"] == "bump":
        raise Skip  # filled groups are plane surfaces

    kw = {}

    if fill:
        kw["fill"] = True

    if holes:
        kw["with_holes"] = True

    out = rec.call(pvg.extract_boundary_polygons, mesh, **kw)

    if not bnd:
        check(out is None, "{} although there is no boundary", out)
        rec.outcome("closed")
        return

    check(isinstance(out, tuple), "not a tuple")
    P = np.asarray(pts, float)
    keep = [a for a in range(3) if a != axis]

    def ids_of(poly):
        q = np.array(poly.points, float)
        d = np.linalg.norm(P[None] - q[:, None], axis=2)
        check(d.min(axis=1).max() < 1e-5, "points of the boundary are not points of the mesh")
        used = np.array(sorted(deg))

        return used[d[:, used].argmin(axis=1)]

    def walk_of(poly):
        """Point ids along the polyline, repeated at its end if closed."""
        cl = [c for t, c in geo.cells_of(poly) if geo.DIM[t] == 1]
        check(len(cl) == 1, "{} lines in one polyline", len(cl))
        w = ids_of(poly)[cl[0]].tolist()
        check(len(poly.points) == len(set(w)), "unused points")

        return w

    def check_edges(walks):
        got = Counter(frozenset(e) for w in walks for e in zip(w[:-1], w[1:]))
        check(got == Counter(bnd), "edges {} instead of {}", sorted(map(sorted, got.elements())), sorted(map(sorted, bnd)))

        if not pinch:
            for w in walks:
                check(w[0] == w[-1] and len(set(w)) == len(w) - 1, "not a simple closed loop: {}", w)

            check(len(walks) == len(loops_of(bnd)), "{} polylines instead of {}", len(walks), len(loops_of(bnd)))

    rec.outcome(case["cells"], holes, fill, len(out))

    if not holes:
        check(all(isinstance(o, pv.PolyData) for o in out), "not polydata")
        check_edges([walk_of(o) for o in out])

        for o in out:
            faces = [c for t, c in geo.cells_of(o) if geo.DIM[t] == 2]
            check(len(faces) == (1 if fill else 0), "{} faces", len(faces))

            if fill and not pinch:
                check(meshes.same_cycle(ids_of(o)[faces[0]], walk_of(o)[:-1]), "the face does not follow its outline")

        return

    # reference nesting
    loops = loops_of(bnd)
    xy = [[tuple(P[i][keep]) for i in lp] for lp in loops]

    def contains(i, j):
        """Loop i around loop j (they do not touch)."""
        return i != j and abs(area2(xy[i])) > abs(area2(xy[j])) and inside(xy[j][0], xy[i])

    cont = [[i for i in range(len(loops)) if contains(i, j)] for j in range(len(loops))]
    groups = {}

    for j in range(len(loops)):
        if len(cont[j]) % 2 == 0:
            groups.setdefault(j, [])

        else:
            groups.setdefault(min(cont[j], key=lambda i: abs(area2(xy[i]))), []).append(j)

    key = lambda lp: frozenset(lp)
    exp = {key(loops[o]): {key(loops[h]) for h in hs} for o, hs in groups.items()}

    if not fill:
        walks = []
        got = {}

        for grp in out:
            check(isinstance(grp, list) and len(grp) > 0, "group is a {}", type(grp).__name__)
            ws = [walk_of(o) for o in grp]
            walks += ws
            check(len({key(w) for w in ws}) == len(ws), "loop listed twice")
            got[key(ws[0])] = {key(w) for w in ws[1:]}

        check_edges(walks)
        check(got == exp, "groups {} instead of {}", [(sorted(k), [sorted(x) for x in v]) for k, v in got.items()], [(sorted(k), [sorted(x) for x in v]) for k, v in exp.items()])

    else:
        check(len(out) == len(exp), "{} groups instead of {}", len(out), len(exp))
        scale = np.linalg.norm(geo.area_vector(P[loops[0]])) / abs(area2(xy[0]))
        ea = sorted(abs(area2(xy[o])) - sum(abs(area2(xy[h])) for h in hs) for o, hs in groups.items())
        ga = sorted(float(np.abs(o.compute_cell_sizes(length=False, volume=False)["Area"]).sum()) for o in out)
        check(geo.close(np.array(ga), scale * np.array(ea), 1e-3), "areas {} instead of {}", ga, (scale * np.array(ea)).tolist())
