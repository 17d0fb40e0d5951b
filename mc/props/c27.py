"""
Full product of label tables, data values, mappings (by label, by value, by numpy integer, to fresh, swapped and merged values), point or cell data, in place or not, on every kind of dataset.
The oracle applies the mapping simultaneously to the values (a plain dictionary lookup per element) and carries the labels along.
"""

import itertools

import numpy as np
import pyvista as pv

from .. import geo
from ..core import check

ID = "C27"
PROPERTY = dict(
    title="Remapping categorical data renames the values and nothing else",
    statement=(
        "remap_categorical_data replaces every value named by the mapping (by its number or by its label) by the new one, all at once, so that exchanging or shifting values works whatever the order of the mapping; values that are not named keep their number. "
        "The labels in user_dict follow their values (sorted by value), so every element keeps its label, labels without elements are dropped and data without labels get none. "
        "Nothing else changes; the input mesh is modified (and nothing returned) only if inplace is True, and unknown labels, invalid preferences and non-integer data raise ValueError without changing it."
    ),
    quantifier=dict(over=["inputs"], text="all mappings of up to three values, label tables, data, datasets, point or cell data, in place or not"),
    why_tests_cant="Tests only look for the new values in the data of one mapping.",
    files=["pvgridder/utils/_misc.py", "pvgridder/core/_base.py"],
    mechanism=[dict(name="masks on the original values", where="utils/_misc.py remap_categorical_data"), dict(name="label bookkeeping", where="utils/_misc.py remap_categorical_data")],
    state=["user_dict", "cell_data", "point_data"],
    level_note="All mappings of three values to five targets under every way of naming them.",
)
ASSUMPTIONS = ["labels have distinct values in the input"]

LABELS = ["none", "full", "extra", "unsorted"]
TABLE = {"full": {"A": 0, "B": 1, "C": 2}, "extra": {"A": 0, "B": 1, "Z": 9, "C": 2}, "unsorted": {"C": 2, "A": 0, "B": 1}}
NAMES = "ABC"
DATA = [(0, 1, 2, 1, 0, 2), (0, 1, 0, 1, 1, 0), (2, 2, 2, 2, 2, 2), (0, 1, 2, 7, 7, 0)]


def gen(full):
    def g(ctx):
        labels = ctx.choose("labels", LABELS, free=True)
        data = ctx.choose("data", list(range(len(DATA))), free=full)

        if labels != "none" and 7 in DATA[data] and not ctx.flag("unlabelled value"):
            return None

        order = ctx.choose("order", list(itertools.permutations(range(3))), free=full)
        mapping = []

        for v in order:
            t = ctx.choose("target", (None, 0, 1, 2, 5), free=True)

            if t is None:
                continue

            how = ctx.choose("how", ("int", "np") if labels == "none" else ("label", "int", "np"), free=full)
            mapping.append((v, how, t))

        if ctx.flag("absent value"):
            mapping.insert(ctx.choose("at", range(len(mapping) + 1)), (4, "int", 6))

        pref = ctx.choose("pref", ("cell", "point"), free=full)

        return dict(
            labels=labels,
            data=data,
            mapping=mapping,
            pref=pref,
            inplace=ctx.flag("inplace", free=full),
            mesh=ctx.choose("mesh", ("ug", "poly", "struct", "image", "rect")),
            dtype=ctx.choose("dtype", ("int64", "int32", "int8")),
            bad=ctx.choose("bad", (None, "label", "pref", "float", "key"), free=False),
            passpref=ctx.flag("explicit", free=False) if pref == "cell" else True,
        )

    return g


def spaces(tier):
    return [("mappings", gen(False), 1 if tier == "quick" else 2)]


def make(kind):
    if kind == "image":
        return pv.ImageData(dimensions=(3, 4, 1))

    if kind == "rect":
        return pv.RectilinearGrid(np.arange(3.0), np.arange(4.0), np.zeros(1))

    s = pv.ImageData(dimensions=(3, 4, 1)).cast_to_structured_grid()

    if kind == "poly":
        return s.extract_surface().copy()

    if kind == "ug":
        return s.cast_to_unstructured_grid()

    return s


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    mesh = make(case["mesh"])
    mesh.clear_data()
    vals = list(DATA[case["data"]])
    vals = vals if case["pref"] == "cell" else vals * 2
    tgt = mesh.cell_data if case["pref"] == "cell" else mesh.point_data
    oth = mesh.point_data if case["pref"] == "cell" else mesh.cell_data
    tgt["grp"] = np.array(vals, dtype="float64" if case["bad"] == "float" else case["dtype"])
    tgt["keep"] = np.arange(len(vals))
    oth["grp2"] = np.arange(len(DATA[0]) if case["pref"] == "point" else 2 * len(DATA[0]))
    table = dict(TABLE.get(case["labels"], {}))

    if table:
        mesh.user_dict["grp"] = dict(table)

    mesh.user_dict["other"] = {"A": 3}
    before = mesh.copy()
    mapping, plain = {}, {}

    for v, how, t in case["mapping"]:
        mapping[NAMES[v] if how == "label" else np.int64(v) if how == "np" else v] = np.int64(t) if how == "np" else t
        plain[v] = t

    kw = dict(preference=case["pref"]) if case["passpref"] else {}

    if case["inplace"]:
        kw["inplace"] = True

    def unchanged(m):
        check(np.array_equal(np.array(m.points), np.array(before.points)), "points changed")

        for da, db in ((m.cell_data, before.cell_data), (m.point_data, before.point_data)):
            check(sorted(da.keys()) == sorted(db.keys()), "data arrays {} instead of {}", sorted(da.keys()), sorted(db.keys()))

            for k in db.keys():
                check(np.array_equal(da[k], db[k]), "array {} changed", k)

        check(dict(m.user_dict) == dict(before.user_dict), "user_dict changed: {}", dict(m.user_dict))

    if case["bad"]:
        if case["bad"] == "label":
            mapping["nope"] = 3

        if case["bad"] == "pref":
            kw["preference"] = "face"

        rec.raises(KeyError if case["bad"] == "key" else ValueError, pvg.remap_categorical_data, mesh, "nokey" if case["bad"] == "key" else "grp", mapping, **kw)
        unchanged(mesh)
        return

    out = rec.call(pvg.remap_categorical_data, mesh, "grp", mapping, **kw)

    if case["inplace"]:
        check(out is None, "returned something in place")
        out = mesh

    else:
        check(out is not None and out is not mesh, "did not return a new mesh")
        unchanged(mesh)

    check(type(out) is type(before), "type changed")
    exp = np.array([plain.get(v, v) for v in vals])
    got = out.cell_data["grp"] if case["pref"] == "cell" else out.point_data["grp"]
    check(np.asarray(got).dtype.kind == "i" and np.array_equal(np.asarray(got), exp), "values {} instead of {}", np.asarray(got).tolist(), exp.tolist())
    # everything else is as before
    ref = before.copy()
    (ref.cell_data if case["pref"] == "cell" else ref.point_data)["grp"] = exp
    check(np.array_equal(np.array(out.points), np.array(ref.points)), "points changed")
    check([(t, list(c)) for t, c in geo.cells_of(out)] == [(t, list(c)) for t, c in geo.cells_of(ref)], "cells changed")

    for da, db in ((out.cell_data, ref.cell_data), (out.point_data, ref.point_data)):
        check(sorted(da.keys()) == sorted(db.keys()), "data arrays {}", sorted(da.keys()))

        for k in db.keys():
            check(np.array_equal(da[k], db[k]), "array {} changed", k)

    ud = {k: (dict(v) if hasattr(v, "items") else v) for k, v in dict(out.user_dict).items()}
    check(ud.get("other") == {"A": 3}, "other entries of user_dict changed: {}", ud)

    if not table:
        check("grp" not in ud, "labels appeared: {}", ud)

    else:
        explab = {k: plain.get(v, v) for k, v in table.items() if v in vals}
        check(ud.get("grp") == explab, "labels {} instead of {}", ud.get("grp"), explab)
        check(list(ud["grp"].values()) == sorted(ud["grp"].values()), "labels are not sorted by value: {}", ud["grp"])

        # the user's view: every element keeps its label
        if case["pref"] == "cell" and set(vals) <= set(table.values()) and len(set(explab.values())) == len(explab):
            inv = {v: k for k, v in table.items()}
            lab = rec.call(pvg.get_cell_group, out, "grp")
            check(lab.tolist() == [inv[v] for v in vals], "labels of the cells changed: {}", lab.tolist())

    rec.outcome(exp, sorted(ud.items()))
