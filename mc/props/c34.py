"""
The cases of all other properties are executed again with every mesh handed to the library stored in another way: points numbered in another order (reversed, scrambled), a point that belongs to no cell, additional
point, cell and field data; the oracle of the case decides as before. A case counts only if it holds with the original meshes. Per space, the largest deviation bound whose enumeration does not exceed the limit of the tier is used.
"""

from .. import reuse, settings

ID = "C34"
PROPERTY = dict(
    title="Results do not depend on the way meshes are stored",
    statement=(
        "The same mesh gives the same result, or the same exception, in all functions and builders, whatever the numbering of its points, points that belong to no cell, and additional point, cell and field data."
    ),
    quantifier=dict(over=["inputs"], text="all cases of the other properties, up to a bound per space, in every way of storing their meshes"),
    why_tests_cant="Tests use meshes as they are generated, with points in the order of the cells and without other data.",
    files=["pvgridder/core/*.py", "pvgridder/utils/*.py"],
    mechanism=[
        dict(name="points looked up by the ids of cells", where="utils/_misc.py split_lines, fuse_cells, extract_cell_geometry; core/_helpers.py"),
    ],
    state=["arguments of all calls"],
    level_note="All spaces of the other checks, each with the largest deviation bound that has at most 100 (quick) or 1000 (thorough) cases, stored in four ways.",
)
ASSUMPTIONS = []


def spaces(tier):
    out = []

    for mod in reuse.modules():
        out += reuse.thin(tier, 100 if tier == "quick" else 1000, extra=dict(setting=settings.storages(mod)), mods=[mod])

    return out


def run(case, rec):
    raise NotImplementedError("all cases have a setting")
