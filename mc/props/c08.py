"""
Deviation-bounded product of base surface x orientation x default scale/angle x sequences of one to three
extrusion steps (vector, resolution, method, scale, angle, each explicit or inherited). Every sequence is executed
on the real builder and the generated mesh is compared node by node (structured) or cell by cell (unstructured)
with a reference that transforms the base nodes step by step (translation, scaling, Rodrigues rotation).
"""

import numpy as np
import pyvista as pv

from .. import layers
from ..core import check
from ..model import METHODS

ID = "C08"
PROPERTY = dict(
    title="Extruded meshes follow translation, scaling and rotation of each step",
    statement=(
        "The mesh generated by MeshExtrude has, for each added step, its subdivisions between the previous surface and that "
        "surface translated by the vector, then scaled by the factor about the center of its bounding box, then rotated by the angle (degrees, "
        "right-handed) about the axis through that center along the vector; scale and angle of the step take precedence over the defaults of the "
        "constructor even when they are 0 or 1, and steps accumulate. A structured, uniform or rectilinear base in any of the three orientations "
        "gives a structured grid extended along its flat index axis, an unstructured base wedges, hexahedra and polyhedra with shared interfaces. "
        "A base that is not 2D, a vector without three components and generating without any step raise ValueError."
    ),
    quantifier=dict(
        over=["inputs", "configurations", "histories"],
        text="every base, default and sequence of steps with every combination of vector, resolution, method, scale and angle",
    ),
    why_tests_cant="No test exercises MeshExtrude beyond what examples run.",
    files=["pvgridder/core/extrude.py", "pvgridder/core/_helpers.py", "pvgridder/utils/_misc.py"],
    mechanism=[
        dict(name="transformation of the previous surface", where="core/extrude.py MeshExtrude.add"),
        dict(name="layer generation and merge", where="core/extrude.py MeshExtrude.generate_mesh; utils/_misc.py merge"),
    ],
    level_note="Bases of 1 to 6 cells, one to three steps; coordinates compared to 1e-6 relative (1e-5 for uniform grids).",
)
ASSUMPTIONS = []

VEC = [(0.0, 0.0, 2.0), (0.0, 0.0, -1.5), (0.5, 0.25, 3.0), "in"]
BASES = ["s2x1", "mixed", "s1x2", "tri", "image", "rect", "s3x2", "quad", "poly", "mixedcw", "one", "s1x1", "pixel"]


def gen(bases, nmax):
    def g(ctx):
        case = dict(base=ctx.choose("base", bases, free=True), axis=ctx.choose("axis", [2, 1, 0], free=True))
        case["scale"] = ctx.choose("scale", [None, 0.5, 1.5, 1.0234567])
        case["angle"] = ctx.choose("angle", [None, 30.0, -90.0, 12.345678])
        n = ctx.choose("n", [2, 1, 3][:nmax])
        case["steps"] = [
            dict(
                vector=ctx.choose(f"vec{i}", VEC),
                res=ctx.choose(f"res{i}", [None, 2, 3, [0.0, 0.4, 1.0]]),
                method=ctx.choose(f"method{i}", METHODS),
                scale=ctx.choose(f"scale{i}", [None, 0.75, 1.0, 2.0, 0.0, 0.9876543]),
                angle=ctx.choose(f"angle{i}", [None, 20.0, 0.0, 180.0, 0.0123456, 405.0]),
            )
            for i in range(n)
        ]

        return case

    return g


ERR = ["none", "vec2", "vec4", "scalar", "dim1", "dim3", "tetra"]


def gen_err(ctx):
    return dict(err=ctx.choose("err", ERR, free=True))


def spaces(tier):
    if tier == "quick":
        return [("extrude", gen(BASES[:3], 2), 2), ("extrude-bases", gen(BASES[3:], 3), 1), ("errors", gen_err, None)]

    return [("extrude", gen(BASES[:4], 3), 3), ("extrude-bases", gen(BASES[4:], 3), 2), ("errors", gen_err, None)]


def rotate(p, w, deg, c):
    k = np.asarray(w, float) / np.linalg.norm(w)
    th = np.deg2rad(deg)
    q = p - c

    return c + q * np.cos(th) + np.cross(k, q) * np.sin(th) + np.outer(q @ k, k) * (1 - np.cos(th))


def oriented(v, axis):
    """Vector given for a base normal to z."""
    if v == "in":
        v = (0.25, -0.5, 1.0)

    out = np.zeros(3)
    a, b = [i for i in range(3) if i != axis]
    out[a], out[b], out[axis] = v

    return out


def run(case, rec):
    import pvgridder as pvg

    if "err" in case:
        e = case["err"]
        rec.state(e)
        b = layers.base_mesh("s2x1", 2)[0]

        if e == "none":
            rec.raises(ValueError, rec.call(pvg.MeshExtrude, b).generate_mesh)

        elif e in ("vec2", "vec4", "scalar"):
            x = rec.call(pvg.MeshExtrude, b)
            rec.raises(ValueError, x.add, {"vec2": [1.0, 2.0], "vec4": [1.0, 2.0, 3.0, 4.0], "scalar": 1.0}[e])

        elif e == "dim1":
            rec.raises(ValueError, pvg.MeshExtrude, pv.ImageData(dimensions=(4, 1, 1)))

        elif e == "dim3":
            rec.raises(ValueError, pvg.MeshExtrude, pv.ImageData(dimensions=(3, 3, 3)))

        else:
            rec.raises(ValueError, pvg.MeshExtrude, pv.UnstructuredGrid([4, 0, 1, 2, 3], [10], np.eye(4)[:, :3]))

        return

    axis = case["axis"]
    mesh, pts, cells, dims = layers.base_mesh(case["base"], axis, w=0.25)
    kw = {k: case[k] for k in ("scale", "angle") if case[k] is not None}
    ex = rec.call(pvg.MeshExtrude, mesh, **kw)
    items = [layers.Item(pts)]

    for s in case["steps"]:
        v = oriented(s["vector"], axis)
        kw = {k: s[k] for k in ("scale", "angle") if s[k] is not None}
        rec.call(ex.add, v, s["res"], s["method"], **kw)
        p = items[-1].pts + v
        scale = s["scale"] if s["scale"] is not None else case["scale"]
        angle = s["angle"] if s["angle"] is not None else case["angle"]
        c = 0.5 * (p.min(axis=0) + p.max(axis=0))

        if scale is not None:
            p = c + scale * (p - c)

        c = 0.5 * (p.min(axis=0) + p.max(axis=0))

        if angle is not None:
            p = rotate(p, v, angle, c)

        items.append(layers.Item(p, s["res"], s["method"]))

    out = rec.call(ex.generate_mesh)
    lv = layers.levels(items, [i.pts for i in items])
    tol = 1e-5

    if dims is not None:
        layers.verify_structured(out, dims, axis, lv, tol)

    else:
        key = layers.unstructured_key(out, cells, lv, tol)
        layers.verify_unstructured(out, cells, lv, key, tol)

        if not any(s["scale"] == 0.0 for s in case["steps"]):
            layers.conforming(out, cells, lv, tol)

    check(out.n_cells == len(cells) * len(lv), "number of cells")
    rec.state(case["base"], axis, np.asarray(out.points, float))
    rec.outcome(out.n_cells, tuple(np.round(out.bounds, 3)))
