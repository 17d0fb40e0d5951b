"""
Deviation-bounded product of builder (2D stack, 3D stack, extrusion) x base mesh x axis x direction x number of
items x resolution of every item x collapsed layers x transition. Every case is executed on the real builder; ColumnId,
LayerId and StackItem/ExtrudeItem of every cell are compared with the position of the cell (index or nodes).
"""

import numpy as np

from .. import geo, layers
from ..core import check
from ..model import METHODS

ID = "C10"
PROPERTY = dict(
    title="ColumnId, LayerId and item index locate every cell of a layered mesh",
    statement=(
        "In the mesh generated by MeshStack2D, MeshStack3D and MeshExtrude, ColumnId is the index of the base cell under the cell, "
        "LayerId counts the layers of subdivisions along the stacking direction from 0 at the first item on, across items, and StackItem (ExtrudeItem for extrusions) is "
        "the index of the item counted from 0, for structured and unstructured bases, any axis, direction, number of items and resolution, "
        "collapsed layers included. Hence every pair (LayerId, ColumnId) is taken by exactly one cell and cells with the same ColumnId lie over each other. "
        "A transition layer of a 2D stack has one LayerId and ColumnId -1."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every builder, base mesh, axis, direction, item count, resolution and collapse pattern",
    ),
    why_tests_cant="No test looks at these arrays; they silently go wrong for axes and shapes that are not tried.",
    files=["pvgridder/core/_base.py", "pvgridder/core/extrude.py", "pvgridder/utils/_misc.py"],
    mechanism=[
        dict(name="numbering of columns and layers", where="core/_base.py MeshStackBase._generate_mesh, _get_layer_ids; core/extrude.py generate_mesh"),
        dict(name="concatenation of cell data of structured grids", where="utils/_misc.py merge"),
    ],
    level_note="Bases of 1 to 6 cells, one to four items of one to four layers.",
)
ASSUMPTIONS = []

RES = [1, 2, 3, [0.0, 0.4, 1.0], None, 4]
BASES = ["s3x2", "s2x1", "mixed", "s1x2", "tri", "image", "rect", "quad", "poly", "one", "s1x1"]


def gen(builders, bases, nmax, freeres):
    def g(ctx):
        b = ctx.choose("builder", builders, free=True)
        case = dict(builder=b, base=ctx.choose("base", bases, free=True) if b != "stack2d" else "line")
        case["axis"] = ctx.choose("axis", [2, 1, 0], free=True)
        case["up"] = ctx.choose("up", [True, False], free=True) if b != "extrude" else True
        n = ctx.choose("n", list(range(1, nmax + 1)), free=True)
        case["items"] = [
            dict(res=ctx.choose(f"res{i}", RES, free=freeres), method=ctx.choose(f"m{i}", METHODS[:1] + METHODS[2:3]), zero=ctx.choose(f"zero{i}", [0, 1, 2]))
            for i in range(n)
        ]

        return case

    return g


def gen_transition(ctx):
    return dict(
        builder="stack2d", base="line", axis=ctx.choose("axis", [2, 1, 0], free=True), up=ctx.choose("up", [True, False], free=True),
        items=[dict(res=ctx.choose(f"res{i}", [1, 2, 3], free=True), method=None, zero=0) for i in range(3)],
        at=ctx.choose("at", [1, 0, 2], free=True), new=ctx.choose("new", [2, 5], free=True),
    )


def gen_layers(ctx):
    """Every combination of resolutions of four items."""
    return dict(
        builder=ctx.choose("builder", ["stack3d", "extrude", "stack2d"], free=True), base=ctx.choose("base", BASES[:2], free=True), axis=2, up=ctx.choose("up", [True, False]),
        items=[dict(res=ctx.choose(f"res{i}", [1, 2, 3], free=True), method=None, zero=0) for i in range(4)],
    )


def spaces(tier):
    b = ["stack3d", "extrude", "stack2d"]

    if tier == "quick":
        return [
            ("ids", gen(b, BASES[:3], 2, False), 2),
            ("ids3", gen(b, BASES[:3], 3, False), 1),
            ("bases", gen(b[:2], BASES[3:], 2, False), 1),
            ("transition", gen_transition, None),
            ("layers", gen_layers, 0),
        ]

    return [
        ("ids", gen(b, BASES[:3], 3, True), 1),
        ("ids4", gen(b, BASES[:3], 4, False), 2),
        ("bases", gen(b[:2], BASES[3:], 3, False), 2),
        ("transition", gen_transition, None),
        ("layers", gen_layers, 1),
    ]


def run(case, rec):
    import pvgridder as pvg

    axis, up = case["axis"], case["up"]
    s = 1.0 if up else -1.0
    e = np.zeros(3)
    e[axis] = s

    if case["builder"] == "stack2d":
        x = [0.0, 1.0, 2.0, 3.5]
        pts = np.zeros((4, 3))
        pts[:, (axis + 1) % 3] = x
        dims = [1, 1, 1]
        dims[{0: 1, 1: 0, 2: 0}[axis]] = 4
        cells = geo.structured_cells(dims)
        b = rec.call(pvg.MeshStack2D, x, axis, up)

    else:
        mesh, pts, cells, dims = layers.base_mesh(case["base"], axis)
        b = rec.call(pvg.MeshStack3D, mesh, axis, up) if case["builder"] == "stack3d" else rec.call(pvg.MeshExtrude, mesh)

    items = [layers.Item(pts)]

    if case["builder"] != "extrude":
        rec.call(b.add, 0.0)

    for i, it in enumerate(case["items"]):
        if case.get("at") == i:
            rec.call(b.set_transition, case["new"])

        p = items[-1].pts.copy()

        if case["builder"] == "extrude":
            v = e * (2.0 if not it["zero"] else 1.0)
            rec.call(b.add, v, it["res"], it["method"])
            p = p + v

        elif it["zero"] == 0 or "at" in case:
            rec.call(b.add, 2.0, it["res"], it["method"])
            p = p + 2.0 * e

        elif it["zero"] == 1:  # everything collapses
            rec.call(b.add, 0.0, it["res"], it["method"])

        else:  # part of the columns collapse
            c = [k for k in range(3) if k != axis and np.ptp(pts[:, k]) > 0][0]
            prev = p.copy()
            p = np.where((p[:, [c]] > 0.9), p, p + 2.0 * e)
            h = {tuple(np.round(q, 9)): r[axis] for q, r in zip(np.delete(prev, axis, 1), p)}
            f = lambda *xyz: np.array([h[tuple(np.round(np.delete(np.array(q, float), axis), 9))] for q in zip(*xyz)])
            rec.call(b.add, f, it["res"], it["method"])

        items.append(layers.Item(p, it["res"], it["method"]))

    out = rec.call(b.generate_mesh)
    name = "ExtrudeItem" if case["builder"] == "extrude" else "StackItem"

    for k in ("ColumnId", "LayerId", name):
        check(k in out.cell_data, "no {}", k)
        check(np.asarray(out.cell_data[k]).dtype.kind in "iu", "{} is not made of integers", k)

    col, lay, itm = (np.asarray(out.cell_data[k]).astype(int).tolist() for k in ("ColumnId", "LayerId", name))

    if "at" in case:
        return run_transition(case, out, col, lay, itm, rec)

    lv = layers.levels(items, [i.pts for i in items])

    if dims is not None:
        check(out.n_cells == len(lv) * len(cells), "number of cells")
        key = layers.structured_index(dims, axis, len(lv))

    else:
        key = layers.unstructured_key(out, cells, lv)

    check(lay == [k[0] for k in key], "LayerId {} instead of {}", lay, [k[0] for k in key])
    check(col == [k[1] for k in key], "ColumnId {} instead of {}", col, [k[1] for k in key])
    check(itm == [lv[k[0]][0] for k in key], "item index {}", itm)
    rec.state(case["builder"], case["base"], axis, tuple(col), tuple(lay), tuple(itm))
    rec.outcome(len(lv), len(cells))


def run_transition(case, out, col, lay, itm, rec):
    pts = np.asarray(out.points, float)
    axis = case["axis"]
    s = 1.0 if case["up"] else -1.0
    c = (axis + 1) % 3
    cells = geo.cells_of(out)
    n_layers, nodes = 0, np.array([0.0, 1.0, 2.0, 3.5])

    for i, it in enumerate(case["items"]):
        n = 1 if case["at"] == i else it["res"]

        if case["at"] == i:
            nodes = np.linspace(0, 3.5, case["new"] + 1)

        seen = set()

        for k, (_, ids) in enumerate(cells):
            m = pts[ids].mean(axis=0)
            h = s * m[axis] / 2.0

            if not i < h < i + 1:
                continue

            layer = n_layers if case["at"] == i else n_layers + int((h - i) * n)
            column = -1 if case["at"] == i else int(np.searchsorted(nodes, m[c])) - 1
            check(itm[k] == i, "item index {} instead of {}", itm[k], i)
            check(lay[k] == layer, "LayerId {} instead of {}", lay[k], layer)
            check(col[k] == column, "ColumnId {} instead of {}", col[k], column)
            seen.add((layer, column))

        check(case["at"] == i or len(seen) == n * (len(nodes) - 1), "missing cells")
        n_layers += n

    rec.state("transition", tuple(col), tuple(lay), tuple(itm))
    rec.outcome("transition", len(cells))
