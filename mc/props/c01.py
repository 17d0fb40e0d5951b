"""
Full product of generator direction x resolution (None, integers incl. 0 and negative, explicit
position arrays in several container types) x method. Each case builds the mesh with the real
generator, recovers the node positions along the subdivided direction from the returned coordinates
and compares them with the reference positions; non-trivial cases have more than one subdivision.
"""

import numpy as np
import pyvista as pv

from .. import geo, model
from ..core import Violation, check

ID = "C01"
PROPERTY = dict(
    title="Subdivision positions follow resolution and method everywhere",
    statement=(
        "Wherever a generator or builder accepts a resolution and a method, an integer n gives max(1, n) "
        "subdivisions whose relative node positions run from 0 to 1: k/n for 'constant' (the default), log10(1+9k/n) "
        "for 'log_r', and the mirror image of 'log_r' for 'log'. A one-dimensional array of relative positions gives "
        "exactly those positions in ascending order whatever the method. An unknown method with an integer resolution, "
        "or a resolution that is neither an integer nor one-dimensional, raises ValueError."
    ),
    quantifier=dict(
        over=["inputs", "configurations"],
        text="every generator direction (lines, arcs, surfaces, volumes, stack and extrude items), every resolution "
        "value and container type, every method",
    ),
    why_tests_cant="The tests use two or three integer resolutions with the default method and compare coordinate "
    "sums; log methods are only reached through example meshes and position arrays never.",
    files=["pvgridder/core/_helpers.py", "pvgridder/core/geometric_objects.py", "pvgridder/core/_base.py", "pvgridder/core/extrude.py"],
    mechanism=[
        dict(name="resolution to relative positions", where="core/_helpers.py resolution_to_perc"),
        dict(name="propagation of resolution and method by every generator", where="core/geometric_objects.py"),
    ],
    level_note="Exhaustive over the listed directions, resolutions (None, -2..16 and a few larger ones, ascending and "
    "shuffled arrays in list/tuple/ndarray form) and methods; assumes nothing beyond float32 coordinate accuracy (1e-5).",
)
ASSUMPTIONS = ["Resolutions beyond the enumerated ones behave like the enumerated ones"]

TARGETS = [
    "rect.x", "rect.y", "square", "quad.x", "quad.y", "annsec.r", "annsec.theta", "annulus.r",
    "annulus.theta", "circle", "sector", "cyl.r", "cyl.theta", "cyl.z", "cylsec.r", "cylsec.theta",
    "cylsec.z", "rectsec.x", "rectsec.y", "rectsec.r", "rectsec.xarc", "rectsec.yarc", "sqsec.x",
    "sqsec.r", "secrect.theta", "secrect.arc", "secrect.r", "secsq.theta", "secsq.arc", "secsq.r",
    "surface", "volume.s", "volume.u", "stack2d", "stack3d.s", "stack3d.u", "extrude.s", "extrude.u",
    "stack2d.second", "extrude.second",
]
ONLY_FULL = {  # closed or chained objects need positions that span [0, 1]
    "circle", "square", "stack2d.second", "extrude.second", "rectsec", "sqsec", "secrect", "secsq",
}
INTS = [None, 1, 2, 3, 0, -2, 4, 5, 6, 7, 8, 10, 12, 16]
INTS_T = INTS + [9, 11, 13, 20, 25, 32, 50, 64, 100]
ARRAYS = [
    [0.0, 1.0], [0.0, 0.5, 1.0], [0.0, 0.1, 0.6, 1.0], [1.0, 0.0], [0.7, 0.0, 1.0, 0.2], [0.0, 0.00025, 0.3331217, 0.3333219, 1.0],
    [0.0, 0.05, 0.15, 0.3, 0.55, 0.8, 1.0], [1.0, 0.9, 0.4, 0.35, 0.0],
]
ARRAYS_PARTIAL = [[0.25, 0.75], [0.2, 0.9, 0.4], [0.5, 1.0, 0.75]]
BAD = ["method", "scalar", "2d"]


def gen_for(tier):
    def gen(ctx):
        t = ctx.choose("target", TARGETS, free=True)
        kind = ctx.choose("kind", ["int", "array", "bad"], free=True)

        if kind == "int":
            res = ctx.choose("n", INTS if tier == "quick" else INTS_T, free=True)

            return dict(target=t, res=res, method=ctx.choose("method", model.METHODS, free=True))

        if kind == "array":
            res = ctx.choose("arr", ARRAYS + ([] if t in ONLY_FULL or t.split(".")[0] in ONLY_FULL else ARRAYS_PARTIAL), free=True)
            cont = ctx.choose("container", ["list", "tuple", "array"], free=True)
            m = ctx.choose("method", model.METHODS, free=True)

            if (t == "circle" or t.startswith("secrect") or t.startswith("secsq")) and len(res) < 3:
                return None

            return dict(target=t, res=res, container=cont, method=m)

        return dict(target=t, bad=ctx.choose("bad", BAD, free=True))

    return gen


def spaces(tier):
    return [("product", gen_for(tier), None)]


def build(target, r, m, rec):
    """Return the node positions found in the generated mesh."""
    import pvgridder as pvg

    seg, arc = model.on_segment, model.on_arc
    c = rec.call
    base = geo.grid2d(2, 1)
    ub = base.cast_to_unstructured_grid()

    if target in ("rect.x", "rect.y"):
        x = target.endswith("x")
        mesh = c(pvg.Rectangle, 2.0, 3.0, **{("x" if x else "y") + "_resolution": r, ("x" if x else "y") + "_method": m})
        return seg(mesh.points, (0, 0, 0), (2, 0, 0) if x else (0, 3, 0)), mesh

    if target == "square":
        mesh = c(pvg.Square, 2.0, r, m)
        t1, t2 = seg(mesh.points, (0, 0, 0), (2, 0, 0)), seg(mesh.points, (0, 0, 0), (0, 2, 0))
        check(geo.close(t1, t2, 1e-5), "square is not subdivided alike along x and y")
        return t1, mesh

    if target in ("quad.x", "quad.y"):
        x = target.endswith("x")
        P = [(0.0, 0.0, 1.0), (3.0, 0.5, 1.0), (4.0, 3.0, 2.0), (-1.0, 2.0, 0.0)]
        mesh = c(pvg.Quadrilateral, P, **{("x" if x else "y") + "_resolution": r, ("x" if x else "y") + "_method": m})
        return seg(mesh.points, P[0], P[1] if x else P[3]), mesh

    if target in ("annsec.r", "annulus.r", "cyl.r", "cylsec.r"):
        kw = dict(r_resolution=r, r_method=m, theta_resolution=4)

        if target.startswith("ann"):
            mesh = c(pvg.AnnularSector if target == "annsec.r" else pvg.Annulus, 1.0, 3.0, **kw)
            return seg(mesh.points, (1, 0, 0), (3, 0, 0)), mesh

        mesh = c(pvg.CylindricalShell if target == "cyl.r" else pvg.CylindricalShellSector, 1.0, 3.0, height=2.0, **kw)
        return seg(mesh.points, (1, 0, -1), (3, 0, -1)), mesh

    if target == "annsec.theta":
        mesh = c(pvg.AnnularSector, 1.0, 2.0, 20.0, 110.0, theta_resolution=r, theta_method=m)
        a, b = arc(mesh.points, 1.0, 20, 110), arc(mesh.points, 2.0, 20, 110)
        check(geo.close(a, b, 1e-5), "inner and outer arcs are subdivided differently")
        return a, mesh

    if target == "annulus.theta":
        mesh = c(pvg.Annulus, 1.0, 2.0, theta_resolution=r, theta_method=m)
        return arc(mesh.points, 2.0, 0, 360), mesh

    if target == "circle":
        mesh = c(pvg.Circle, 2.0, r, m)
        return arc(mesh.points, 2.0, 0, 360), mesh

    if target == "sector":
        mesh = c(pvg.Sector, 2.0, -30.0, 60.0, r, m)
        return arc(mesh.points, 2.0, -30, 60), mesh

    if target == "cyl.theta":
        mesh = c(pvg.CylindricalShell, 1.0, 2.0, 1.0, theta_resolution=r, theta_method=m)
        return arc(mesh.points, 2.0, 0, 360), mesh

    if target == "cylsec.theta":
        mesh = c(pvg.CylindricalShellSector, 1.0, 2.0, 10.0, 130.0, 1.0, theta_resolution=r, theta_method=m)
        return arc(mesh.points, 2.0, 10, 130), mesh

    if target in ("cyl.z", "cylsec.z"):
        f = pvg.CylindricalShell if target == "cyl.z" else pvg.CylindricalShellSector
        mesh = c(f, 1.0, 2.0, height=3.0, z_resolution=r, z_method=m, theta_resolution=4)
        return seg(mesh.points, (1, 0, -1.5), (1, 0, 1.5)), mesh

    if target.startswith("rectsec"):
        d = {"x": "x", "xarc": "x", "y": "y", "yarc": "y", "r": "r"}[target.split(".")[1]]
        mesh = c(pvg.RectangleSector, 1.0, 2.0, 4.0, **{f"{d}_resolution": r, f"{d}_method": m})
        s = 4.0 * 2**-0.5

        return {
            "x": lambda: seg(mesh.points, (1, 2, 0), (0, 2, 0)),
            "y": lambda: seg(mesh.points, (1, 2, 0), (1, 0, 0)),
            "xarc": lambda: arc(mesh.points, 4.0, 45, 90),
            "yarc": lambda: arc(mesh.points, 4.0, 45, 0),
            "r": lambda: seg(mesh.points, (1, 2, 0), (s, s, 0)),
        }[target.split(".")[1]](), mesh

    if target.startswith("sqsec"):
        d = target.split(".")[1]
        mesh = c(pvg.SquareSector, 1.0, 3.0, **{f"{d}_resolution": r, f"{d}_method": m})
        s = 3.0 * 2**-0.5

        if d == "x":
            t1, t2 = seg(mesh.points, (1, 1, 0), (0, 1, 0)), seg(mesh.points, (1, 1, 0), (1, 0, 0))
            check(geo.close(t1, t2, 1e-5), "square sides are subdivided differently")
            return t1, mesh

        return seg(mesh.points, (1, 1, 0), (s, s, 0)), mesh

    if target.startswith("secrect") or target.startswith("secsq"):
        d = target.split(".")[1]
        p = "r" if d == "r" else "theta"
        kw = {f"{p}_resolution": r, f"{p}_method": m}

        if target.startswith("secrect"):
            mesh, X, Y, R = c(pvg.SectorRectangle, 1.0, 2.0, 3.0, **kw), 2.0, 3.0, 1.0

        else:
            mesh, X, Y, R = c(pvg.SectorSquare, 1.0, 2.0, **kw), 2.0, 2.0, 1.0

        s = R * 2**-0.5

        if d == "r":
            return seg(mesh.points, (s, s, 0), (X, Y, 0)), mesh

        if d == "theta":
            t1, t2 = seg(mesh.points, (X, Y, 0), (0, Y, 0)), seg(mesh.points, (X, Y, 0), (X, 0, 0))

        else:
            t1, t2 = arc(mesh.points, R, 45, 90), arc(mesh.points, R, 45, 0)

        check(geo.close(t1, t2, 1e-5), "both halves are subdivided differently")
        return t1, mesh

    if target == "surface":
        a, b = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.5)], [(0.0, 2.0, 1.0), (1.5, 2.0, 0.5)]
        mesh = c(pvg.StructuredSurface, a, b, "xy", r, m)
        return seg(mesh.points, a[1], b[1]), mesh

    if target in ("volume.s", "volume.u"):
        g = base if target == "volume.s" else ub
        mesh = c(pvg.Volume, g, g.translate((0.5, 0.0, 2.0)), r, m)
        return seg(mesh.points, (0, 0, 0), (0.5, 0, 2)), mesh

    if target == "stack2d":
        mesh = c(c(pvg.MeshStack2D, [0.0, 1.0, 3.0]).add(1.0).add(2.0, r, m).generate_mesh)
        return seg(mesh.points, (1, 0, 1), (1, 0, 3)), mesh

    if target == "stack2d.second":
        mesh = c(c(pvg.MeshStack2D, [0.0, 1.0, 3.0]).add(1.0).add(2.0, 2).add(1.5, r, m).generate_mesh)
        return seg(mesh.points, (1, 0, 3), (1, 0, 4.5)), mesh

    if target in ("stack3d.s", "stack3d.u"):
        g = base if target == "stack3d.s" else ub
        mesh = c(c(pvg.MeshStack3D, g).add(1.0).add(2.0, r, m).generate_mesh)
        return seg(mesh.points, (1, 0, 1), (1, 0, 3)), mesh

    if target in ("extrude.s", "extrude.u"):
        g = base if target == "extrude.s" else ub
        mesh = c(c(pvg.MeshExtrude, g).add((0.5, 0.0, 2.0), r, m).generate_mesh)
        return seg(mesh.points, (0, 0, 0), (0.5, 0, 2)), mesh

    if target == "extrude.second":
        mesh = c(c(pvg.MeshExtrude, ub).add((0.0, 0.0, 1.0)).add((0.5, 0.0, 2.0), r, m).generate_mesh)
        return seg(mesh.points, (0, 0, 1), (0.5, 0, 3)), mesh

    raise Violation(f"unknown target {target}")


def run(case, rec):
    t = case["target"]

    if "bad" in case:
        from ..core import Rec

        r, m = {
            "method": (3, "foo"),
            "scalar": (2.5, None),
            "2d": ([[0.0, 1.0]], None),
        }[case["bad"]]
        rec.raises(ValueError, lambda: build(t, r, m, Rec()))
        rec.state(t, case["bad"])
        rec.outcome("ValueError")
        return

    r = case["res"]

    if "container" in case:
        r = {"list": list, "tuple": tuple, "array": np.array}[case["container"]](r)

    pos, mesh = build(t, r, case["method"], rec)
    ref = model.perc(case["res"], case["method"])

    if t in ("annulus.theta", "circle", "cyl.theta"):
        # the nodes at 0 and 360 degrees coincide
        if ref[0] == 0.0 or ref[-1] == 1.0:
            ref = np.unique(np.r_[0.0, ref, 1.0])

    rec.state(t, np.asarray(ref))
    rec.outcome(len(ref), geo.close(ref, np.linspace(0, 1, len(ref))))
    check(
        geo.close(pos, ref, 2e-5),
        "{}: positions {} differ from reference {}",
        t, np.round(pos, 6).tolist(), np.round(ref, 6).tolist(),
    )
