"""
Monitors that run the cases of the other checks in another setting: every call of the library made through Rec.call is intercepted,
its arguments are converted, and what it returns is converted back, so that the oracle of the check still applies.

    Frame(scale, shift)  all coordinates are multiplied and moved (another unit, another origin)
    Container(kind)      arrays are handed over in another container or memory layout

Scales are powers of two and shifts multiples of large ones, so that the conversion of the coordinates itself is exact.
"""

from __future__ import annotations

import inspect

import numpy as np
import pyvista as pv

from . import geo
from .core import Skip

# parameters that hold coordinates, lengths and heights along the stacking axis
COORDS = {
    "StructuredSurface": ("line_a", "line_b"),
    "Volume": ("surface_a", "surface_b"),
    "RegularLine": ("points",),
    "CurvedLine": ("origin",),
    "Polygon": ("shell", "holes"),
    "get_connectivity": ("mesh", "cell_centers"),
    "intersect_polyline": ("mesh", "line"),
    "ray_cast": ("mesh", "pointa", "pointb"),
    "reconstruct_line": ("mesh_or_points",),
    "offset_polygon": ("mesh_or_points",),
    "merge": ("dataset",),
    "merge_lines": ("lines",),
    "add_plane": ("point",),
    "add": ("mesh_or_points", "mesh"),
    "add_polyline": ("mesh_or_points",),
    "add_circle": ("center",),
}
LENGTHS = {
    "AnnularSector": ("inner_radius", "outer_radius"),
    "Annulus": ("inner_radius", "outer_radius"),
    "Circle": ("radius",),
    "CurvedLine": ("length",),
    "CylindricalShell": ("inner_radius", "outer_radius", "height"),
    "CylindricalShellSector": ("inner_radius", "outer_radius", "height"),
    "Polygon": ("cellsize",),
    "Quadrilateral": ("points",),
    "Rectangle": ("dx", "dy"),
    "RectangleSector": ("dx", "dy", "radius"),
    "Sector": ("radius",),
    "SectorRectangle": ("radius", "dx", "dy"),
    "SectorSquare": ("radius", "dx"),
    "Square": ("dx",),
    "SquareSector": ("dx", "radius"),
    "average_points": ("tolerance",),
    "decimate_rdp": ("tolerance",),
    "intersect_polyline": ("min_length", "tolerance"),
    "ray_cast": ("tolerance",),
    "offset_polygon": ("distance",),
    "generate_mesh": ("min_length", "infinity"),  # the tolerance is relative
    "add_circle": ("radius", "constraint_radius"),
    "add_polyline": ("width", "padding"),
}
# results that are arrays of coordinates
POINTS_OUT = {"get_cell_centers"}
GRID = 2.0**-12


def snap(x):
    """Removes the rounding of the conversion from coordinates that lie on a coarse grid, such as those of the corners of a lattice."""
    x = np.asarray(x, float)
    y = np.round(x / GRID) * GRID

    return np.where(np.abs(x - y) < 2.0**-27, y, x)


class Proxy:
    """A builder whose methods are intercepted, too, when they are called directly."""

    def __init__(self, setting, obj, shift):
        self.__dict__.update(_setting=setting, _obj=obj, _shift=shift)

    def __getattr__(self, name):
        v = getattr(self._obj, name)

        return Method(self, v) if inspect.ismethod(v) and not name.startswith("_") else v

    def __setattr__(self, name, value):
        setattr(self._obj, name, value)


class Method:
    def __init__(self, proxy, fn):
        self.proxy, self.fn = proxy, fn

    def __call__(self, *args, **kwargs):
        return self.proxy._setting.call(self, args, kwargs)


class Frame:
    def __init__(self, scale, shift):
        self.scale, self.shift = float(scale), np.array(shift, float)

    # ---- conversion of coordinates
    def points(self, p, shift):
        p = np.array(p)

        if p.dtype == np.float32 and shift.any():
            raise Skip

        out = self.scale * p.astype(float) + (shift if p.shape[-1] == 3 else shift[: p.shape[-1]])

        return out.astype(p.dtype) if p.dtype == np.float32 else out

    def mesh(self, m, shift):
        n = m.copy(deep=True)

        if isinstance(n, pv.ImageData):
            if shift.any():  # VTK computes the points of uniform grids in single precision
                raise Skip

            n.spacing = [self.scale * x for x in n.spacing]
            n.origin = [self.scale * x for x in n.origin]

        elif isinstance(n, pv.RectilinearGrid):
            n.x, n.y, n.z = [self.points(np.array(c)[:, None], shift[i : i + 1])[:, 0] for i, c in enumerate((n.x, n.y, n.z))]

        elif n.n_points:
            n.points = self.points(n.points, shift)

        return n

    def coords(self, v, shift):
        if isinstance(v, pv.DataSet):
            return self.mesh(v, shift)

        if v is None:
            return None

        if isinstance(v, (list, tuple)) and len(v) and not np.isscalar(v[0]) and (isinstance(v[0], pv.DataSet) or np.ndim(v[0]) == 2):
            return type(v)(self.coords(x, shift) for x in v)

        p = self.points(v, shift)

        return p if isinstance(v, np.ndarray) else p.tolist()

    def lengths(self, v):
        if v is None:
            return None

        if isinstance(v, (list, tuple, np.ndarray)):
            p = self.scale * np.array(v, float)

            return p if isinstance(v, np.ndarray) else p.tolist()

        return self.scale * v

    def back(self, r, shift, name):
        if isinstance(r, pv.ImageData):
            r.spacing = [x / self.scale for x in r.spacing]
            r.origin = [(x - d) / self.scale for x, d in zip(r.origin, shift)]

        elif isinstance(r, pv.RectilinearGrid):
            r.x, r.y, r.z = [snap((np.array(c, float) - shift[i]) / self.scale) for i, c in enumerate((r.x, r.y, r.z))]

        elif isinstance(r, pv.DataSet):
            for i, k in enumerate("XYZ"):
                if name == "generate_mesh" and k in r.cell_data:
                    r.cell_data[k] = (np.array(r.cell_data[k], float) - shift[i]) / self.scale

            if name == "ray_cast" and r.n_cells:
                r.cell_data["IntersectionPoints"] = (np.array(r.cell_data["IntersectionPoints"], float) - shift) / self.scale

            if name == "intersect_polyline" and r.n_cells:
                r.cell_data["Length"] = np.array(r.cell_data["Length"], float) / self.scale

            if r.n_points:
                r.points = snap((np.array(r.points, float) - shift) / self.scale)

        elif isinstance(r, (list, tuple)):
            for x in r:
                self.back(x, shift, name)

        elif isinstance(r, np.ndarray) and name in POINTS_OUT:
            return snap((r - shift) / self.scale)

        return r

    # ---- interception
    def call(self, fn, args, kwargs):
        proxy = None

        if isinstance(fn, Method):
            proxy, fn = fn.proxy, fn.fn

        name = getattr(fn, "__name__", "")
        me = getattr(fn, "__self__", None)
        shift = self.shift.copy() if proxy is None else proxy._shift

        try:
            sig = inspect.signature(fn)
            bound = sig.bind(*args, **kwargs).arguments

        except (TypeError, ValueError):
            raise Skip

        if inspect.isclass(fn):
            name = fn.__name__

        if name in ("<lambda>", "") or name.startswith("interactive"):
            raise Skip

        v = dict(bound)
        extra = v.pop("kwargs", {})
        v.update(extra)
        v.pop("args", None) if not v.get("args") else None

        if "args" in v:
            raise Skip

        if name in ("Polygon", "StructuredSurface", "Quadrilateral") and all(v.get(k) is None for k in COORDS.get(name, ("points",))):
            raise Skip  # default geometry

        # flat coordinates: the third one is given by the library
        if me is None:
            for k in COORDS.get(name, ()):
                x = v.get(k)

                if x is not None and not isinstance(x, pv.DataSet) and not (isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], pv.DataSet)):
                    a = np.asarray(x[0] if isinstance(x, (list, tuple)) and len(x) and np.ndim(x[0]) == 2 else x, float)

                    if a.ndim and a.shape[-1] == 2:
                        shift[2] = 0.0

        if name == "VoronoiMesh2D":  # the result lies in the plane through the origin
            shift[v.get("axis", 2)] = 0.0

        if name == "MeshStack2D" and not isinstance(v["mesh"], pv.DataSet):
            axis = v.get("axis", 2)
            b = (axis + 1) % 3
            keep = np.zeros(3)
            keep[[axis, b]] = shift[[axis, b]]
            shift = keep
            x = self.scale * np.array(v["mesh"], float) + shift[b]
            v["mesh"] = x if isinstance(v["mesh"], np.ndarray) else type(v["mesh"])(x.tolist())

        elif type(me).__name__ in ("MeshStack2D", "MeshStack3D") and name in ("add", "set_transition"):
            axis = me.axis
            key = "arg" if name == "add" else "mesh_or_resolution"
            x = v.get(key)

            if isinstance(x, pv.DataSet):
                v[key] = self.mesh(x, shift)

            elif callable(x):
                v[key] = self.function(x, shift, axis)

            elif name == "add" and x is not None:
                a = np.asarray(x)

                if a.ndim == 2 and a.shape[1] == 3:
                    v[key] = self.coords(x, shift)

                else:  # a height for the first item, thicknesses thereafter
                    y = self.scale * a.astype(float) + (0.0 if me.items else shift[axis])
                    v[key] = y if isinstance(x, np.ndarray) else y.tolist()

            if "thickness" in v:
                v["thickness"] = self.lengths(v["thickness"])

        elif type(me).__name__ == "MeshExtrude" and name == "add":
            v["vector"] = self.lengths(v["vector"])

        else:
            for k in list(v):
                if isinstance(v[k], pv.DataSet) or (k in COORDS.get(name, ()) and k != "center"):
                    v[k] = self.coords(v[k], shift)

        if name == "Quadrilateral" and v.get("center") is None and np.shape(v["points"]) == (4, 3):
            v["points"] = self.coords(v["points"], shift)

            return self.back(fn(**v), shift, name)

        if "center" in sig.parameters:
            c = v.get("center")

            if c is not None and len(c) not in (2, 3):
                raise Skip

            c = np.zeros(3) if c is None else np.array(c, float)
            c = np.insert(c, getattr(me, "axis", 2), 0.0) if len(c) == 2 else c
            v["center"] = (self.scale * c + shift).tolist()

        for k in LENGTHS.get(name, ()):
            if k in v:
                v[k] = self.lengths(v[k])

            elif k in sig.parameters and isinstance(sig.parameters[k].default, float):
                v[k] = self.lengths(sig.parameters[k].default)

        # positional-only calls such as add_plane(angles, point, *args)
        res = fn(**v)

        if type(res).__module__.startswith("pvgridder"):
            return proxy if res is me else Proxy(self, res, shift)

        return self.back(res, shift, name)

    def function(self, f, shift, axis):
        def g(x, y, z):
            q = [snap((np.asarray(c, float) - d) / self.scale) for c, d in zip((x, y, z), shift)]

            return self.scale * np.asarray(f(*q), float) + shift[axis]

        return g


def numeric(v):
    """Is this a (nested) sequence of numbers that makes an array?"""
    if not len(v):
        return False

    if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
        return True

    return all(isinstance(x, (list, tuple)) and len(x) == len(v[0]) and numeric(x) for x in v)


class Container:
    """Arrays (and lists of numbers) in another container or memory layout; nothing else changes."""

    def __init__(self, kind):
        self.kind = kind

    def convert(self, v, k):
        if isinstance(v, dict):
            return {i: self.convert(x, None) for i, x in v.items()}

        if isinstance(v, (list, tuple)) and len(v) and all(isinstance(x, str) for x in v):  # names
            if self.kind in ("strided", "readonly", "array") and k != "ignore_groups":
                return np.array(v)

            return tuple(v) if self.kind == "tuple" else list(v) if self.kind == "list" else v

        if isinstance(v, (list, tuple)) and len(v) and all(isinstance(x, bool) for x in v) and self.kind in ("strided", "readonly", "array"):
            return np.array(v)

        if isinstance(v, np.ndarray) and v.dtype.kind in "fiub":
            if self.kind == "list":
                return v.tolist()

            if self.kind == "tuple":
                t = v.tolist()

                return tuple(tuple(x) if isinstance(x, list) else x for x in t)

            if self.kind == "strided":
                w = np.repeat(v, 2, axis=-1) if v.ndim else v

                return w[..., ::2]

            if self.kind == "fortran":
                return np.asfortranarray(v)

            if self.kind == "readonly":
                w = v.copy()
                w.flags.writeable = False

                return w

            if self.kind == "integer" and v.dtype.kind == "f" and np.array_equal(v, np.round(v)):
                return v.astype(int)

        if self.kind in ("strided", "readonly", "fortran", "array") and isinstance(v, (list, tuple)) and numeric(v):
            return self.convert(np.array(v), k)

        if isinstance(v, list) and v and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
            if self.kind == "tuple":
                return tuple(v)

            if self.kind == "integer" and all(float(x).is_integer() for x in v):
                return [int(x) for x in v]

        if isinstance(v, float) and self.kind == "integer" and v.is_integer():
            return int(v)

        if isinstance(v, (int, float)) and not isinstance(v, bool) and self.kind == "scalar":
            return np.float64(v) if isinstance(v, float) else np.int64(v)

        return v

    def arguments(self, fn, args, kwargs):
        if getattr(fn, "__name__", "") in ("<lambda>", ""):
            raise Skip

        return [self.convert(a, None) for a in args], {k: self.convert(v, k) for k, v in kwargs.items()}

    def call(self, fn, args, kwargs):
        args, kwargs = self.arguments(fn, args, kwargs)

        return fn(*args, **kwargs)


class Storage:
    """Meshes stored in another way: numbering of the points, points without cells, additional data; nothing else changes."""

    EXTRA = "zz extra"

    def __init__(self, kind):
        self.kind = kind

    def mesh(self, m):
        if self.kind == "data":
            m = m.copy()
            active = m.active_scalars_info
            m.point_data[self.EXTRA] = np.column_stack([np.arange(m.n_points)] * 2)[:, ::-1]
            m.cell_data[self.EXTRA] = np.arange(m.n_cells) % 2 == 0
            m.field_data[self.EXTRA] = np.array([1.0, 2.0])
            m.set_active_scalars(active.name, preference=active.association.name.lower() if active.association.name in ("POINT", "CELL") else "cell")

            return m

        if not isinstance(m, (pv.PolyData, pv.UnstructuredGrid)) or not m.n_cells:
            return m

        if isinstance(m, pv.PolyData) and (m.n_strips or m.n_verts == m.n_cells):  # clouds of points
            return m

        n = m.n_points
        step = next(k for k in range(n // 2 + 1 if self.kind == "scrambled" else 2, 2 * n + 3) if np.gcd(k, n) == 1)
        at = np.arange(n)[::-1] if self.kind == "reversed" else (np.arange(n) * step + 1) % n  # new number of each point
        old = np.empty(n, dtype=int)
        old[at] = np.arange(n)
        points = np.array(m.points)[old]

        if self.kind == "unused":
            points = np.vstack((points[:1] + (points[:1] - points[-1:]) * 0.3, points))
            at = at + 1

        def ids(a):
            a, k = np.array(a), 0

            while k < len(a):
                a[k + 1 : k + 1 + a[k]] = at[a[k + 1 : k + 1 + a[k]]]
                k += a[k] + 1

            return a

        if isinstance(m, pv.PolyData):
            kw = {k: ids(getattr(m, k)) for k in ("verts", "lines", "faces") if len(getattr(m, k))}
            new = pv.PolyData(points, **kw)

        else:
            cells = []

            for t, c in geo.cells_of(m):
                if t == 42:
                    c = [len(c), *(x for f in c for x in (len(f), *at[list(f)]))]

                else:
                    c = list(at[list(c)]) if len(c) else []

                cells += [len(c), *c]

            new = pv.UnstructuredGrid(cells, np.array(m.celltypes), points)

        for k in m.point_data.keys():
            v = np.array(m.point_data[k])[old]
            new.point_data[k] = np.concatenate((v[:1], v)) if self.kind == "unused" else v

        for k in m.cell_data.keys():
            new.cell_data[k] = np.array(m.cell_data[k])

        for k in m.field_data.keys():
            if k != "_PYVISTA_USER_DICT":
                new.field_data[k] = np.array(m.field_data[k])

        if "_PYVISTA_USER_DICT" in m.field_data:
            new.user_dict = dict(m.user_dict)

        return new

    def convert(self, v):
        if isinstance(v, pv.DataSet):
            return self.mesh(v)

        if isinstance(v, (list, tuple)) and any(isinstance(x, pv.DataSet) for x in v):
            return type(v)([self.convert(x) for x in v])

        return v

    def back(self, r):
        if isinstance(r, pv.DataSet):
            for d in (r.point_data, r.cell_data, r.field_data):
                if self.EXTRA in d:
                    del d[self.EXTRA]

        elif isinstance(r, (list, tuple)):
            for x in r:
                self.back(x)

        return r

    def arguments(self, fn, args, kwargs):
        if getattr(fn, "__name__", "") in ("<lambda>", "") or kwargs.get("inplace"):
            raise Skip

        return [self.convert(a) for a in args], {k: self.convert(v) for k, v in kwargs.items()}

    def call(self, fn, args, kwargs):
        args, kwargs = self.arguments(fn, args, kwargs)
        r = fn(*args, **kwargs)

        return self.back(r) if self.kind == "data" else r
