"""
Full product of the cells of small 2D meshes (quads in both directions, pairs of triangles with both diagonals, holes, every unsupported type), in the three coordinate planes and warped, as unstructured grids and polydata.
Every quadratic cell is compared node by node with the linear cell of the same number.
"""

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import Skip, check

CT = pv.CellType
ID = "C28"
PROPERTY = dict(
    title="Quadratic meshes interpolate the linear mesh",
    statement=(
        "quadraticize returns one quadratic cell per linear cell, in the same order: triangles become quadratic triangles and quads quadratic quads, with the same corners in the same order followed by one node at the middle of every edge "
        "in VTK's order (so that the quadratic cell covers exactly the linear one and neighbouring cells still coincide along their common edge). The points of the linear mesh keep their numbers. "
        "Meshes with any other cell raise NotImplementedError, wherever the cell is."
    ),
    quantifier=dict(over=["inputs"], text="all meshes of triangles and quads, orientations, planes and mixtures with unsupported cells"),
    why_tests_cant="Tests check the type of the first cell and a sum of coordinates.",
    files=["pvgridder/utils/_misc.py"],
    mechanism=[dict(name="mid-edge nodes and numbering", where="utils/_misc.py quadraticize")],
    state=["running point number"],
    level_note="All cell patterns up to 2x2 (quick) or 3x2 (thorough) lattice squares.",
)


def gen(dims_list, codes):
    def g(ctx):
        dims = ctx.choose("dims", dims_list, free=True)
        cells = "".join(ctx.choose("cell", codes, free=True) for _ in range(dims[0] * dims[1]))

        if not cells.strip("-"):
            return None

        return dict(
            dims=dims,
            cells=cells,
            axis=ctx.choose("axis", (2, 1, 0)),
            warp=ctx.flag("warp"),
            type=ctx.choose("type", ("ug", "poly")),
            bad=ctx.choose("bad", ("", "x", "o", "g", "e", "l", "n")),
        )

    return g


def spaces(tier):
    dims = [[1, 1], [2, 1], [1, 2], [2, 2]]
    q = [("patterns", gen(dims, "qrtu-"), 2)]

    return q if tier == "quick" else [("patterns", gen(dims, "qrtu-"), None), ("patterns3x2", gen([[3, 2]], "qrtu-"), 1)]


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    codes = case["cells"]

    if case["bad"]:
        if case["type"] == "poly" and case["bad"] in "xeln":
            raise Skip

        codes = codes[:-1] + case["bad"]

    spec = dict(kind="cells2d", dims=case["dims"], cells=codes, axis=case["axis"], type=case["type"])
    mesh, cells = meshes.build(spec)

    if case["warp"]:
        p = np.array(mesh.points, float)
        p[:, case["axis"]] = 0.3 * np.arange(len(p)) % 0.7
        p[:, (case["axis"] + 1) % 3] += 0.05 * np.cos(np.arange(len(p)))
        mesh.points = p

    ok = {int(CT.TRIANGLE), int(CT.QUAD)}

    if any(t not in ok for t, _ in cells):
        rec.raises(NotImplementedError, pvg.quadraticize, mesh)
        return

    out = rec.call(pvg.quadraticize, mesh)
    check(isinstance(out, pv.UnstructuredGrid), "not an unstructured grid")
    p, q = np.array(mesh.points, float), np.array(out.points, float)
    check(out.n_cells == len(cells), "{} cells instead of {}", out.n_cells, len(cells))
    check(len(q) >= len(p) and geo.close(q[: len(p)], p, 1e-7), "the points of the linear mesh changed")
    conn, off = np.array(out.cell_connectivity), np.array(out.offset)

    for i, (t, c) in enumerate(cells):
        exp = int(CT.QUADRATIC_TRIANGLE if t == int(CT.TRIANGLE) else CT.QUADRATIC_QUAD)
        n = len(c)
        check(int(out.celltypes[i]) == exp, "cell {} has type {} instead of {}", i, int(out.celltypes[i]), exp)
        ids = conn[off[i] : off[i + 1]]
        check(len(ids) == 2 * n, "cell {} has {} nodes", i, len(ids))
        check(list(ids[:n]) == list(c), "corners of cell {} changed", i)
        mid = 0.5 * (p[c] + p[c[1:] + c[:1]])
        check(geo.close(q[ids[n:]], mid, 1e-6), "mid-edge nodes of cell {}: {} instead of {}", i, q[ids[n:]], mid)

    rec.outcome(q, conn)
