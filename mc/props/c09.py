"""
Product of builder (2D stack, 3D stack, extrusion) x base mesh x base groups (names, numbers in any order, unnamed
cells) x ignored groups x default group x group specification of two items (string, names, inverted names, lists,
masks, indices, callables, several keys), deviation-bounded. Every case is executed on the real builder; the group
name of every cell of the generated mesh, found by its position, is compared with a reference evaluated cell by cell.
"""

import numpy as np
import pyvista as pv

from .. import geo, layers
from ..core import check

ID = "C09"
PROPERTY = dict(
    title="Every generated cell carries the group its item and base cell ask for",
    statement=(
        "In the mesh generated by MeshStack2D, MeshStack3D and MeshExtrude every cell has, by its CellGroup number looked up in "
        "user_dict['CellGroup'], the group assigned by its item to its base cell: a string applies to all cells; a mapping assigns each key "
        "to the cells selected by a base group name or list of names (inverted by a leading '~'), by indices, by a mask, or by a callable of the "
        "mesh returning any of these, a '~' before the key inverting the selection and later keys overriding earlier ones; other cells keep the group of the "
        "base mesh unless it is in ignore_groups, and cells without group get default_group ('default' if not given). Base groups are taken by name whatever their "
        "numbers and order. user_dict['CellGroup'] holds exactly the groups present, each with one number."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every builder, base numbering, ignore list, default group and combination of group specifications of the items",
    ),
    why_tests_cant="Group propagation is only exercised by examples; inverted selections, renumbered base groups and callables are not.",
    files=["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py"],
    mechanism=[
        dict(name="group evaluation", where="core/_base.py MeshBase._initialize_group_array"),
        dict(name="removal of unused groups", where="core/_base.py MeshBase._clean; utils/_misc.py remap_categorical_data"),
    ],
    level_note="Bases of three to six cells, two items; names compared, numbers are free.",
)
ASSUMPTIONS = ["Selections refer to groups that exist in the base mesh and are not ignored"]

BUILDERS = ["stack3d", "extrude", "stack2d"]
# name -> number, and the number of every base cell (cyclic)
NUMBERING = {
    "none": (None, None),
    "AB": ({"A": 0, "B": 1}, [0, 1, 1]),
    "BA": ({"B": 1, "A": 0}, [0, 1, 1]),
    "sparse": ({"A": 7, "B": 3, "C": 5}, [3, 7, 5, 7]),
    "swap": ({"A": 1, "B": 0}, [0, 1, 1]),
    "unnamed": ({"A": 0, "B": 2}, [0, 1, 2, 9]),
    "unused": ({"Z": 0, "A": 1, "B": 2, "Y": 3}, [1, 2, 1]),
    "nodict": (None, [0, 1, 0]),
    "prefix": ({"AB": 0, "A": 1, "B A": 2, "a": 3, "B": 4}, [0, 1, 2, 3, 4]),
}
SPECS = [
    None, "X", "A", ["m", {"X": "A"}], ["m", {"X": "~A"}], ["m", {"X": ["A", "B"]}], ["m", {"X": ["~A", "~B"]}], ["m", {"X": ["~B"]}],
    ["m", {"~X": "A"}], ["m", {"~X": "~B"}], ["m", {"X": "A", "Y": "B"}], ["m", {"A": "B", "B": "A"}], ["m", {"X": "A", "Y": "A"}],
    ["m", {"X": "#mask"}], ["m", {"X": "#idx"}], ["m", {"X": "#neg"}], ["m", {"X": "#fmask"}], ["m", {"X": "#fidx"}], ["m", {"X": "#fname"}],
    ["m", {"~X": "#idx"}], ["m", {"~X": "#fidx"}], ["m", {"~X": "#mask"}], ["m", {"X": "#mask", "Y": "#idx"}], ["m", {"X": "#all", "A": "#idx"}],
    ["m", {"B": "#mask", "Y": "~A"}], ["m", {"X": "#list"}], ["m", {"X": "#none"}], ["m", {"X": "#fnames"}],
]


def gen(builders, bases, free_spec, specs2=SPECS):
    def g(ctx):
        case = dict(
            builder=ctx.choose("builder", builders, free=True),
            base=ctx.choose("base", bases, free=True),
            numbering=ctx.choose("numbering", list(NUMBERING)[1:] + ["none"], free=True),
            spec1=ctx.choose("spec1", SPECS, free=True),
            spec2=ctx.choose("spec2", specs2, free=free_spec),
            ignore=ctx.choose("ignore", [None, ["A"], ["B", "A"], ["Q"]]),
            default=ctx.choose("default", [None, "dflt", "A"]),
            axis=ctx.choose("axis", [2, 0, 1]),
        )

        if case["builder"] == "stack2d":
            case["base"] = "list"

            if case["numbering"] != "none":
                return None

        names = NUMBERING[case["numbering"]][0] or {}
        ok = set(names) - set(case["ignore"] or [])

        for s in (case["spec1"], case["spec2"]):
            if isinstance(s, list):
                for v in s[1].values():
                    v = {"#fname": "A", "#fnames": ["A", "~B"]}.get(v, v) if isinstance(v, str) else v

                    for w in v if isinstance(v, list) else [v]:
                        if not w.startswith("#") and w.lstrip("~") not in ok:
                            return None

        return case

    return g


def spaces(tier):
    if tier == "quick":
        return [("groups", gen(BUILDERS, ["s3x2"], False, SPECS[::3]), 1), ("unstructured", gen(BUILDERS[:2], ["mixed"], False, SPECS[:2]), 1)]

    return [
        ("groups", gen(BUILDERS, ["s3x2", "mixed"], True), 1),
        ("groups2", gen(BUILDERS, ["s2x1", "tri"], False), 2),
    ]


def selection(tag, n):
    """Cells selected by a '#' tag."""
    return {
        "#mask": [i for i in range(n) if i % 2 == 0],
        "#idx": [1, n - 1],
        "#neg": [n - 1],
        "#fmask": [i for i in range(n) if i % 2 == 1],
        "#fidx": [0, 2],
        "#all": list(range(n)),
        "#list": [0],
        "#none": [],
    }[tag]


def real_value(v, n):
    if not isinstance(v, str) or not v.startswith("#"):
        return v

    if v == "#fname":
        return lambda mesh: "A"

    if v == "#fnames":
        return lambda mesh: ["A", "~B"]

    if v == "#neg":
        return [-1]

    sel = selection(v, n)
    mask = np.zeros(n, dtype=bool)
    mask[sel] = True

    return {
        "#mask": mask,
        "#idx": np.array(sel),
        "#fmask": lambda mesh: np.arange(mesh.n_cells) % 2 == 1,
        "#fidx": lambda mesh: [0, 2],
        "#all": mask.tolist(),
        "#list": sel,
        "#none": np.zeros(n, dtype=bool),
    }[v]


def evaluate(spec, base, n, default):
    """Group names of one item: base[i] is the base group of cell i or None."""
    out = list(base)

    if isinstance(spec, str):
        out = [spec] * n

    elif spec is not None:
        for k, v in spec[1].items():
            v = {"#fname": "A", "#fnames": ["A", "~B"]}.get(v, v) if isinstance(v, str) else v

            if isinstance(v, str) and v.startswith("#"):
                sel = set(selection(v, n))

            else:
                sel = set()

                for w in v if isinstance(v, list) else [v]:
                    for i in range(n):
                        hit = base[i] == w.lstrip("~")

                        if hit != w.startswith("~"):
                            sel.add(i)

            for i in range(n):
                if (i in sel) != k.startswith("~"):
                    out[i] = k.lstrip("~")

    return [default if g is None else g for g in out]


def names_of(mesh):
    """Group name of every cell; the mapping has to be one to one and without unused names."""
    check("CellGroup" in mesh.cell_data and "CellGroup" in mesh.user_dict, "no groups in the generated mesh")
    d = dict(mesh.user_dict["CellGroup"])
    num = [int(x) for x in np.asarray(mesh.cell_data["CellGroup"])]
    inv = {int(v): k for k, v in d.items()}
    check(len(inv) == len(d), "two groups share a number: {}", d)
    check(set(num) <= set(inv), "cells with unknown group numbers: {} {}", sorted(set(num)), d)
    check(set(num) == set(inv), "unused groups are kept: {} {}", sorted(set(num)), d)

    return [inv[x] for x in num]


def run(case, rec):
    import pvgridder as pvg

    axis = case["axis"]
    names, numbers = NUMBERING[case["numbering"]]
    kw = {}

    if case["ignore"] is not None:
        kw["ignore_groups"] = list(case["ignore"])

    if case["default"] is not None:
        kw["default_group"] = case["default"]

    if case["builder"] == "stack2d":
        x = [0.0, 1.0, 2.0, 3.5]
        dims = [1, 1, 1]
        dims[{0: 1, 1: 0, 2: 0}[axis]] = 4
        cells = geo.structured_cells(dims)
        b = rec.call(pvg.MeshStack2D, x, axis, **kw)
        pts = np.zeros((4, 3))
        pts[:, (axis + 1) % 3] = x
        n = 3

    else:
        mesh, pts, cells, dims = layers.base_mesh(case["base"], axis)
        n = len(cells)

        if numbers is not None:
            mesh.cell_data["CellGroup"] = [numbers[i % len(numbers)] for i in range(n)]

        if names is not None:
            mesh.user_dict["CellGroup"] = dict(names)

        b = rec.call(pvg.MeshStack3D, mesh, axis, **kw) if case["builder"] == "stack3d" else rec.call(pvg.MeshExtrude, mesh, **kw)

    base = [None] * n

    if names is not None:
        inv = {v: k for k, v in names.items()}
        base = [inv.get(numbers[i % len(numbers)]) for i in range(n)]
        base = [None if g in (case["ignore"] or []) else g for g in base]

    specs = []

    for s in (case["spec1"], case["spec2"]):
        specs.append({k: real_value(v, n) for k, v in s[1].items()} if isinstance(s, list) else s)

    e = np.zeros(3)
    e[axis] = 1.0

    if case["builder"] == "extrude":
        rec.call(b.add, e, 2, group=specs[0])
        rec.call(b.add, 2 * e, 1, group=specs[1])

    else:
        rec.call(b.add, 0.0)
        rec.call(b.add, 1.0, 2, group=specs[0])
        rec.call(b.add, 2.0, 1, group=specs[1])

    out = rec.call(b.generate_mesh)
    p0 = pts.copy()
    p0[:, axis] = 0.0
    items = [layers.Item(p0), layers.Item(p0 + e, 2), layers.Item(p0 + 3 * e, 1)]
    lv = layers.levels(items, [i.pts for i in items])
    key = layers.structured_index(dims, axis, 3) if dims is not None else layers.unstructured_key(out, cells, lv)
    check(len(key) == out.n_cells, "number of cells")
    dflt = case["default"] or "default"
    ref = [evaluate(case["spec1"], base, n, dflt), evaluate(case["spec2"], base, n, dflt)]
    want = [ref[lv[layer][0]][col] for layer, col in key]
    got = names_of(out)
    check(got == want, "groups {} instead of {}", got, want)
    rec.state(*[repr(case[k]) for k in sorted(case)])
    rec.outcome(tuple(want))
