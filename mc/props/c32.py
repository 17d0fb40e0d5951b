"""
The cases of all other properties are executed again with every array, list and number handed to the library converted to another container, memory layout or type that holds the same values; the oracle of the case decides as before.
A case counts only if it holds with the original arguments. Per space, the largest deviation bound whose enumeration does not exceed the limit of the tier is used; nothing is sampled.
"""

from .. import reuse, settings

ID = "C32"
PROPERTY = dict(
    title="Results do not depend on the container or number type of the arguments",
    statement=(
        "Arrays may be given as numpy arrays (contiguous or not, in C or Fortran order, read-only), lists or tuples, and numbers as Python or numpy numbers, integers where they have integral values: "
        "the same values give the same result or the same exception in all functions and builders."
    ),
    quantifier=dict(over=["inputs"], text="all cases of the other properties, up to a bound per space, in every representation"),
    why_tests_cant="Tests use one representation per call.",
    files=["pvgridder/core/*.py", "pvgridder/utils/*.py"],
    mechanism=[
        dict(name="conversion of array-like arguments", where="np.asanyarray, np.ravel and isinstance checks in core/*.py and utils/_misc.py"),
    ],
    state=["arguments of all calls"],
    level_note="All spaces of the other checks, each with the largest deviation bound that has at most 60 (quick) or 600 (thorough) cases, in seven representations.",
)
ASSUMPTIONS = []


def spaces(tier):
    return reuse.thin(tier, 60 if tier == "quick" else 600, extra=dict(setting=tuple(f"container:{k}" for k in settings.KINDS)))


def run(case, rec):
    raise NotImplementedError("all cases have a setting")
