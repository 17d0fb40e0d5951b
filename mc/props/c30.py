"""
The event loop of the plotter is replaced by an explorer: every sequence of picks up to a depth (and every lasso polygon of a catalogue, with every start and direction) is fed to the callbacks that the code registers.
Pick histories are compared with a set automaton (a pick toggles its element; exactly the selected elements are highlighted), lasso selections with a point-in-polygon test written by hand in the plane of the view.
"""

import re

import numpy as np
import pyvista as pv

from .. import geo, meshes
from ..core import check

ID = "C30"
PROPERTY = dict(
    title="Interactive selections return exactly the elements that the user selected",
    statement=(
        "For every history of picks, interactive_selection returns the distinct integer indices of the cells (or points) that were picked an odd number of times and highlights exactly them at any time, so that a second pick undoes the first. "
        "interactive_lasso_selection returns the sorted indices of the cells whose center (or of the points which) lie inside the polygon clicked by the user, as seen in the chosen view (xy, xz or yz, from either side), "
        "and the polygon in the coordinates of that view on request. Invalid views raise ValueError and the mesh is never modified."
    ),
    quantifier=dict(over=["histories", "inputs"], text="all pick sequences up to the depth; all lasso polygons, views, meshes, cell or point mode"),
    why_tests_cant="The only test makes no selection: it cannot drive the event loop.",
    files=["pvgridder/utils/_interactive.py"],
    mechanism=[dict(name="toggling of picked elements", where="utils/_interactive.py interactive_selection"), dict(name="projection on the view", where="utils/_interactive.py interactive_lasso_selection")],
    state=["actors", "clicked points"],
    level_note="Pick sequences up to depth 5 (quick) or 7 (thorough) over three elements.",
)
ASSUMPTIONS = [
    "the plotter is a stand-in that records the calls and plays the events: no rendering is available here",
    "element centers do not lie on the lasso polygon; lassos have at least three vertices",
]

VIEWS = ["xy", "xz", "yz", "-xy", "-xz", "-yz"]
MESHES = {
    "vol": dict(kind="cells3d", dims=[2, 2, 2], cells="hhvhpkhw"),
    "image": dict(kind="structured", type="image", dims=[3, 2, 2]),
    "struct": dict(kind="structured", type="struct", dims=[2, 3, 2]),
    "poly": dict(kind="cells2d", dims=[3, 2], cells="qtquqg", type="poly"),
    "ug": dict(kind="cells2d", dims=[3, 2], cells="qtquqg", axis=1),
    "ugx": dict(kind="cells2d", dims=[3, 2], cells="qtquqg", axis=0),
}
# Lassos in the coordinates of the view
LASSO = {
    "left": [(-1.03, -1.07), (1.27, -1.02), (1.33, 7.1), (-1.01, 7.3)],
    "low": [(-1.03, -1.07), (7.4, -1.02), (7.3, 1.13), (-1.01, 1.21)],
    "corner": [(1.37, 1.19), (9.1, 1.23), (9.2, 9.4), (1.33, 9.3)],
    "triangle": [(-0.91, -0.87), (5.17, -0.93), (-0.83, 4.21)],
    "concave": [(-1.0, -1.1), (8.0, -1.2), (8.1, 8.3), (5.9, 8.4), (5.7, 0.37), (-1.1, 0.41)],
    "all": [(-9, -9), (9, -9.1), (9.2, 9), (-9.1, 9.3)],
    "nothing": [(10, 10), (11, 10.1), (11, 11.2)],
}


class Stop(Exception):
    pass


class Theme:
    pass


class FakePlotter:
    """Records what is displayed and plays the events when shown."""

    def __init__(self, *args, **kwargs):
        self.live = {}
        self.count = 0
        self.theme = Theme()
        self.click = self.pick = None
        self.views = []
        self.mode = None
        self.shown = 0
        self.script = None

    def add_mesh(self, mesh, *args, **kwargs):
        self.count += 1
        self.live[self.count] = mesh

        return self.count

    def remove_actor(self, actor, *args, **kwargs):
        if isinstance(actor, (list, tuple)):
            for a in actor:
                self.live.pop(a)

        else:
            self.live.pop(actor)

        return True

    def track_click_position(self, callback=None, *args, **kwargs):
        self.click = callback

    def enable_element_picking(self, callback=None, mode="cell", **kwargs):
        self.pick = callback
        self.mode = mode

    def show(self, *args, **kwargs):
        self.shown += 1

        if self.script is not None:
            self.script(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        m = re.fullmatch(r"view_(xy|yx|xz|zx|yz|zy|isometric|vector)", name)

        if m:
            return lambda *a, **k: self.views.append((m.group(1), bool(k.get("negative", a[0] if a else False))))

        if name.startswith("view_"):
            raise AttributeError(name)

        return lambda *a, **k: None


def gen_pick(depth):
    def g(ctx):
        n = ctx.choose("n", range(depth + 1), free=True)

        return dict(
            f="pick",
            seq=[ctx.choose("id", (0, 2, 5), free=True) for _ in range(n)],
            pref=ctx.choose("pref", ("cell", "point"), free=True),
            mesh=ctx.choose("mesh", sorted(MESHES)),
            view=ctx.choose("view", (None, *VIEWS, "bad")),
            given=ctx.choose("plotter", (True, False)),
            picker=ctx.choose("picker", (None, "hardware", "point", "cell")),
            parallel=ctx.flag("parallel"),
        )

    return g


def gen_lasso(ctx):
    name = ctx.choose("lasso", sorted(LASSO), free=True)

    return dict(
        f="lasso",
        lasso=name,
        start=ctx.choose("start", range(len(LASSO[name]))),
        rev=ctx.flag("rev"),
        far=ctx.choose("far", (0.0, 100.0)),
        view=ctx.choose("view", [*VIEWS, None, "bad"], free=True),
        pref=ctx.choose("pref", ("cell", "point", None), free=True),
        mesh=ctx.choose("mesh", sorted(MESHES), free=True),
        poly=ctx.flag("return_polygon"),
        given=ctx.choose("plotter", (True, False)),
    )


def spaces(tier):
    q = tier == "quick"

    return [("picks", gen_pick(5 if q else 7), 1), ("lassos", gen_lasso, 1 if q else None)]


def inside(p, poly):
    """Even-odd rule."""
    x, y = p
    r = False

    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            r = not r

    return r


def run(case, rec):
    import pvgridder as pvg

    rec.state(str(case))
    mesh, cells = meshes.build(MESHES[case["mesh"]])
    mesh.cell_data["a"] = np.arange(mesh.n_cells)
    snap = geo.snapshot(mesh)
    fake = FakePlotter()
    saved = pv.Plotter

    class One(FakePlotter):
        def __new__(cls, *args, **kwargs):
            return fake

        def __init__(self, *args, **kwargs):
            pass

    fake.__class__ = One
    pv.Plotter = One

    try:
        (run_pick if case["f"] == "pick" else run_lasso)(case, rec, pvg, mesh, cells, fake)

    finally:
        pv.Plotter = saved

    diff = geo.snapshot_diff(snap, geo.snapshot(mesh))
    check(not diff, "the mesh was modified: {}", diff)


def run_pick(case, rec, pvg, mesh, cells, fake):
    sel = []
    cell = case["pref"] == "cell"

    def script(p):
        check(p.mode == case["pref"], "picking mode {}", p.mode)
        base = set(p.live)
        check(len(base) == 1, "{} meshes displayed", len(base))

        for i in case["seq"]:
            picked = mesh.extract_cells([i]) if cell else pv.PolyData(np.array(mesh.points)[[i]])

            if cell:
                picked.cell_data["vtkOriginalCellIds"] = np.array([i])

            else:
                picked.point_data["vtkOriginalPointIds"] = np.array([i])

            p.pick(picked)

            if i in sel:
                sel.remove(i)

            else:
                sel.append(i)

            arr = "vtkOriginalCellIds" if cell else "vtkOriginalPointIds"
            shown = sorted(int((m.cell_data if cell else m.point_data)[arr][0]) for k, m in p.live.items() if k not in base)
            check(base <= set(p.live), "the mesh is no longer displayed")
            check(shown == sorted(sel), "{} are highlighted, {} are selected", shown, sorted(sel))
            rec.state("pick", case["mesh"], case["pref"], tuple(sel))

    fake.script = script
    kw = dict(preference=case["pref"]) if not cell else {}

    if case["given"]:
        kw["plotter"] = fake

    if case["view"]:
        kw["view"] = case["view"]

    if case["picker"]:
        kw["picker"] = case["picker"]

    if case["parallel"]:
        kw["parallel_projection"] = True

    if case["view"] == "bad":
        rec.raises(ValueError, pvg.interactive_selection, mesh, **kw)
        return

    out = rec.call(pvg.interactive_selection, mesh, **kw)
    check(fake.shown == 1, "shown {} times", fake.shown)
    out = np.asarray(out)
    check(out.dtype.kind in "iu" and out.shape == (len(sel),), "returned {} {}", out.dtype, out.shape)
    check(sorted(out.tolist()) == sorted(sel), "returned {} instead of {}", out.tolist(), sel)

    if case["view"]:
        v = case["view"]
        check(fake.views == [(v.lstrip("-"), v.startswith("-"))], "view {} instead of {}", fake.views, v)

    # usable as indices
    check(len((np.arange(mesh.n_cells if cell else mesh.n_points))[out]) == len(sel), "not usable as indices")
    rec.outcome(sorted(sel), case["pref"])


def run_lasso(case, rec, pvg, mesh, cells, fake):
    poly = LASSO[case["lasso"]]
    poly = poly[case["start"] :] + poly[: case["start"]]
    poly = poly[::-1] if case["rev"] else poly
    view = case["view"] or "xy"
    axis = {"xy": 2, "xz": 1, "yz": 0}.get(view.lstrip("-"), 2)
    keep = [a for a in range(3) if a != axis]

    def script(p):
        for i, q in enumerate(poly):
            xyz = [0.0, 0.0, 0.0]
            xyz[axis] = case["far"] + i
            xyz[keep[0]], xyz[keep[1]] = q
            p.click(tuple(xyz))

    fake.script = script
    kw = {}

    if case["view"]:
        kw["view"] = case["view"]

    if case["pref"]:
        kw["preference"] = case["pref"]

    if case["poly"]:
        kw["return_polygon"] = True

    if case["given"]:
        kw["plotter"] = fake

    if case["view"] == "bad":
        rec.raises(ValueError, pvg.interactive_lasso_selection, mesh, **kw)
        return

    out = rec.call(pvg.interactive_lasso_selection, mesh, **kw)

    if case["poly"]:
        check(isinstance(out, tuple) and len(out) == 2, "no polygon returned")
        out, pol = out
        got = np.array(pol.exterior.coords)[:-1]
        check(got.shape == (len(poly), 2) and geo.close(got, np.array(poly), 1e-5), "polygon {} instead of {}", got.tolist(), poly)

    if case["pref"] == "point":
        pts = np.array(mesh.points, float)

    else:
        pts = np.array(mesh.cell_centers().points, float)

    exp = [i for i, p in enumerate(pts) if inside(p[keep], poly)]
    out = np.asarray(out)
    check(out.dtype.kind in "iu", "indices of type {}", out.dtype)
    check(out.tolist() == exp, "selected {} instead of {}", out.tolist(), exp)
    check(fake.views == [(view.lstrip("-"), view.startswith("-"))], "view {} instead of {}", fake.views, view)
    rec.outcome(case["mesh"], case["pref"], tuple(exp))
