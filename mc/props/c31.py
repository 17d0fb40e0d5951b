"""
The cases of all other properties are executed again in other frames: every coordinate and length handed to the library is converted to another unit (a power of two) or another origin (the size of projected geographic coordinates),
what the library returns is converted back, and the oracle of the case decides as before. A case counts only if it holds in the original frame.
Per space, the largest deviation bound whose enumeration does not exceed the limit of the tier is used; nothing is sampled.
"""

from .. import reuse, settings

ID = "C31"
PROPERTY = dict(
    title="Results follow a translation or a change of unit of the coordinates",
    statement=(
        "If all coordinates given to the generators, builders and mesh functions are moved by the same vector, as large as projected geographic coordinates (10^6), or all coordinates, lengths and tolerances are multiplied by the same factor "
        "(between about 10^-5 and 10^3), the result is the same mesh, moved or multiplied in the same way up to the rounding of double precision: same cells, data, groups and ghost cells, same exceptions. "
        "Uniform grids (whose points VTK computes in single precision) and single precision inputs are only moved as far as their precision allows."
    ),
    quantifier=dict(over=["inputs"], text="all cases of the other properties, up to a bound per space, in every frame"),
    why_tests_cant="Tests work near the origin with sizes around one, where absolute tolerances and single precision do not show.",
    files=["pvgridder/core/*.py", "pvgridder/utils/*.py"],
    mechanism=[
        dict(name="double precision kept through VTK filters", where="utils/_misc.py, core/_helpers.py, core/voronoi.py"),
        dict(name="tolerances", where="core/_base.py _clean, core/_helpers.py, utils/_misc.py average_points, intersect_polyline, ray_cast"),
    ],
    state=["coordinates of all inputs and results"],
    level_note="All spaces of the other checks, each with the largest deviation bound that has at most 120 (quick) or 1500 (thorough) cases, in three frames.",
)
ASSUMPTIONS = ["feature sizes stay above the absolute default tolerances (1e-8) and far below 1e6 times the rounding of double precision"]


def spaces(tier):
    return reuse.thin(tier, 120 if tier == "quick" else 1500, keep=settings.frame_ok, extra=dict(setting=tuple(f"frame:{f}" for f in settings.FRAMES)))


def run(case, rec):
    raise NotImplementedError("all cases have a setting")
