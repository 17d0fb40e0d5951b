"""
The cases of all other properties are executed again under a monitor that takes a snapshot of every mesh, array, list and dictionary before it is handed to the library and compares it after each call, including the later calls of builder objects (so every prefix of an operation sequence is observed).
Per space, the largest deviation bound whose enumeration does not exceed the limit of the tier is used; nothing is sampled.
"""

from .. import core, reuse
from ..core import PurityViolation, Skip
from ..frame import Container

ID = "C12"
PURITY = True
PROPERTY = dict(
    title="No function or builder modifies the objects passed to it",
    statement=(
        "Meshes, arrays, lists and dictionaries passed to a function or to a method of a builder are the same after the call as before (points, cells, point, cell and field data, user dictionary, hidden cells), whether it returns or raises, and remain so during all later calls of the builder, such as generate_mesh. "
        "The only exception is remap_categorical_data with inplace=True; the arrays vtkOriginalPointIds and vtkOriginalCellIds, which pyvista itself adds to inputs of extract_cells, do not count."
    ),
    quantifier=dict(over=["inputs", "histories"], text="all cases of the other properties, up to a bound per space, and all prefixes of their operation sequences"),
    why_tests_cant="Tests never look at the inputs again after a call.",
    files=["pvgridder/core/*.py", "pvgridder/utils/*.py"],
    mechanism=[
        dict(name="copies of background and item meshes", where="core/voronoi.py VoronoiMesh2D.__init__ and add, core/stack.py, core/extrude.py, core/merge.py"),
        dict(name="ghost cells put aside and restored", where="utils/_misc.py extract_cells, utils/_properties.py get_cell_centers"),
    ],
    state=["snapshots of all objects owned by the caller"],
    level_note="All spaces of the other checks, each with the largest deviation bound that has at most 700 (quick) or 5000 (thorough) cases.",
)



def spaces(tier):
    # C01 works on numbers only
    keep = lambda case: not case.get("inplace")
    out = reuse.spaces(tier, 700 if tier == "quick" else 5000, skip=("C01",), keep=keep)

    # Lists of numbers as arrays
    return out + reuse.thin(tier, 60 if tier == "quick" else 600, keep=keep, extra=dict(array=(True,)), label="arrays")


def run(case, rec):
    mod = core.load(case["mod"])
    rec.setting = Container("array") if case.get("array") else None

    try:
        mod.run(case["case"], rec)

    except (PurityViolation, Skip):
        raise

    except Exception:  # noqa: BLE001  (decided by the other property)
        return

    finally:
        rec.setting = None
