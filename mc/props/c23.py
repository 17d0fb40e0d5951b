"""
Explicit enumeration of clusters: every vector of cluster sizes on the corners of a polygon, several numberings of the points (all permutations for small sets), every choice of faces from a family and
tolerances that separate, chain or join the clusters. The oracle computes the connected components of the distance graph by brute force, and averages and face outlines from them.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C23"
PROPERTY = dict(
    title="Averaging points replaces each cluster by its mean and nothing else",
    statement=(
        "average_points replaces every maximal set of points linked by distances within the tolerance by one point at their mean, whatever their numbering and number, and keeps all other points used by the faces where they are; the faces follow their points, "
        "in order, with repeated corners removed, and those left with fewer than three corners are dropped (at least one has to be left). vtkOriginalCellIds gives the original index of every face that is left; a point cloud is reduced to the means, "
        "and meshes with lines are rejected."
    ),
    quantifier=dict(over=["inputs"], text="all cluster sizes, chains, numberings of the points, faces and tolerances"),
    why_tests_cant="Cluster bookkeeping depends on the order in which pairs are found, tests use two or three close points.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="clusters", where="utils/_misc.py average_points")],
    state=["points", "faces", "tolerance"],
    level_note="All size vectors in {1,2,3}^4 (thorough: {1..4}^4) with 6 (24) numberings, all permutations of up to 5 (7) points.",
)
ASSUMPTIONS = []

SITES = np.array([(0, 0, 0), (4, 0, 0), (5, 3, 0), (0, 2, 1)], float)
STEP = np.array([0.11, 0.02, 0.0])  # spacing of a chain ~0.112


def chain(sizes, curl):
    pts, site = [], []

    for s, n in enumerate(sizes):
        for j in range(n):
            off = 0.0 * STEP if curl == "same" else STEP * j if not curl else 0.06 * np.array([np.cos(2.1 * j), np.sin(2.1 * j), 0.2 * j])
            pts.append(SITES[s] + off)
            site.append(s)

    return np.array(pts), site


def permutations(n, k):
    """Numberings: all of them for few points, a fixed family otherwise."""
    if n <= k:
        return list(itertools.permutations(range(n)))

    out = [tuple(range(n)), tuple(range(n))[::-1]]

    for s in (2, 3, 5, 7):
        if np.gcd(s, n) == 1:
            out.append(tuple((s * i) % n for i in range(n)))

    out.append(tuple(sorted(range(n), key=lambda i: (i % 2, i))))
    out.append(tuple(sorted(range(n), key=lambda i: (i % 3, -i))))

    return list(dict.fromkeys(out))


FACES = ["outline", "reversed", "fan", "tiles", "wraps", "cloud", "line"]


def gen(top, k, curls):
    def g(ctx):
        sizes = [ctx.choose(f"n{i}", list(range(1, top + 1)), free=True) for i in range(len(SITES))]
        n = sum(sizes)
        perm = ctx.choose("perm", permutations(n, k), free=True)
        faces = ctx.choose("faces", FACES, free=True)
        curl = ctx.choose("curl", curls, free=True)
        tol = ctx.choose("tol", (0.15, 0.05, 0.0, None, 20.0), free=n <= k or curl == "same")

        return dict(sizes=sizes, perm=list(perm), faces=faces, curl=curl, tol=tol)

    return g


TREES = {
    "path": [(i, 0) for i in range(8)],
    "comb": [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (0, 1), (3, 1)],
    "cross": [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (2, 0), (-2, 0), (0, 2)],
    "pairs": [(0, 0), (1, 0), (3, 0), (4, 0), (2, 0), (6, 0), (7, 0), (5, 0)],
}


def gen_trees(top):
    """Chains of points that are linked in every order: all numberings."""

    def g(ctx):
        tree = ctx.choose("tree", list(TREES), free=True)
        n = ctx.choose("n", range(3, top + 1), free=True)

        return dict(tree=tree, perm=list(ctx.choose("perm", itertools.permutations(range(n)), free=True)), faces=ctx.choose("faces", ("cloud", "outline"), free=n < top), tol=0.12, far=ctx.flag("far", free=n < top))

    return g


def spaces(tier):
    if tier == "quick":
        return [("clusters", gen(3, 4, (False, True, "same")), 1), ("trees", gen_trees(6), 0)]

    return [("clusters", gen(4, 5, (False, True, "same")), 1), ("numberings", gen(2, 6, (False,)), 1), ("trees", gen_trees(7), 0)]


def face_list(kind, site):
    n = len(site)
    ids = list(range(n))

    if kind == "outline":
        return [ids]

    if kind == "reversed":  # starts in the middle of a cluster
        r = ids[::-1]

        return [r[1:] + r[:1]] if n > 1 else [r]

    if kind == "fan":  # triangles of consecutive points
        return [[ids[0], ids[i], ids[i + 1]] for i in range(1, n - 1)]

    if kind == "wraps":  # the first and the last corner of the slivers are in the same cluster
        out = [ids]

        for s in range(len(SITES)):
            a = [i for i in ids if site[i] == s]
            b = [i for i in ids if site[i] != s]
            out += [[i, b[0], j] for i in a for j in a[a.index(i) + 1 :]] + [[i, b[0], b[-1], j] for i in a[:1] for j in a[1:]]

        return out

    # one polygon per cluster and its neighbours, and a small one
    out = []

    for s in range(len(SITES)):
        a = [i for i in ids if site[i] == s]
        b = [i for i in ids if site[i] == (s + 1) % len(SITES)]
        c = [i for i in ids if site[i] == (s + 2) % len(SITES)]
        out.append(a + b + c)
        out.append(a[:1] + b)

    return [f for f in out if len(f) > 2]


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))

    if "tree" in case:
        pts = np.array([(0.1 * x, 0.1 * y, 0.0) for x, y in TREES[case["tree"]][: len(case["perm"])]])
        pts = pts + ((500.0, 300.0, 0.0) if case["far"] else 0.0)
        site = [0] * len(pts)

        if case["faces"] == "outline":  # two more corners far away
            pts = np.vstack((pts, pts[0] + [3.0, 0.0, 0.0], pts[0] + [0.0, 4.0, 0.0]))
            site += [1, 2]
            case = dict(case, perm=case["perm"] + [len(pts) - 2, len(pts) - 1])

    else:
        pts, site = chain(case["sizes"], case["curl"])

    perm = case["perm"]
    new = np.empty(len(perm), int)
    new[perm] = np.arange(len(perm))  # point i is stored at new[i]
    xyz = np.empty_like(pts)
    xyz[new] = pts
    kind = case["faces"]
    args = () if case["tol"] is None else (case["tol"],)
    tol = case["tol"] or 0.0

    if kind == "line":
        mesh = pv.PolyData(xyz, lines=[len(xyz), *range(len(xyz))])
        rec.raises(NotImplementedError, pvg.average_points, mesh, *args)
        return

    # clusters by brute force
    n = len(xyz)
    comp = list(range(n))
    d = np.linalg.norm(xyz[:, None] - xyz[None], axis=-1)
    check(not (np.abs(d - tol) < 1e-9)[np.triu_indices(n, 1)].any() or tol == 0.0, "harness: distance equal to the tolerance")

    for i in range(n):
        for j in range(i + 1, n):
            if d[i, j] <= tol and comp[i] != comp[j]:
                a, b = comp[i], comp[j]
                comp = [a if c == b else c for c in comp]

    comp = np.array(comp)
    mean = np.array([xyz[comp == comp[i]].mean(axis=0) for i in range(n)])

    if kind == "cloud":
        mesh = pv.PolyData(xyz)
        out = rec.call(pvg.average_points, mesh, *args)
        exp = mean[np.unique(comp, return_index=True)[1]]
        check(out.n_points == len(exp), "{} points instead of {}", out.n_points, len(exp))
        m = geo.match_points(exp, np.array(out.points, float), 1e-5)
        check((m >= 0).all() and len(set(m)) == len(exp), "points are not the means of the clusters")
        rec.outcome("cloud", np.array(out.points))
        return

    faces = [[int(new[i]) for i in f] for f in face_list(kind, site)]

    if not faces:
        return

    exp, ids = [], []

    for i, f in enumerate(faces):
        g = []

        for q in f:
            if not g or comp[g[-1]] != comp[q]:
                g.append(q)

        if len(g) > 1 and comp[g[0]] == comp[g[-1]]:
            g.pop()

        if len(g) > 2:
            exp.append(mean[g])
            ids.append(i)

    mesh = pv.PolyData(xyz, faces=[q for f in faces for q in (len(f), *f)])
    out = rec.call(pvg.average_points, mesh, *args)
    check(isinstance(out, pv.PolyData), "not a polydata")

    if not exp:  # nothing left
        check(out.n_cells == 0, "{} cells although no face is left", out.n_cells)
        rec.outcome(kind, "empty")
        return

    check(out.n_faces_strict == len(exp) and out.n_cells == len(exp), "{} faces instead of {}", out.n_faces_strict, len(exp))

    check(list(out.cell_data["vtkOriginalCellIds"]) == ids, "vtkOriginalCellIds {} instead of {}", list(out.cell_data["vtkOriginalCellIds"]), ids)
    opts = np.array(out.points, float)

    for i, ((t, c), e) in enumerate(zip(geo.cells_of(out), exp)):
        p = opts[list(c)]
        check(len(p) == len(e), "face {} has {} corners instead of {}", i, len(p), len(e))
        check(any(geo.close(np.roll(p, k, axis=0), e, 1e-5) for k in range(len(p))), "face {} does not follow its points", i)

    used = np.unique(np.round(np.vstack(exp), 6) + 0.0, axis=0)
    check(len(opts) == len(used), "{} points instead of {}", len(opts), len(used))
    rec.outcome(kind, opts)
