"""
Every check also executes the cases of its own spaces in other settings: in another frame of coordinates (see props/c31.py), with the
arguments in other containers and number types (see props/c32.py) and with meshes stored in another way (see props/c34.py), since a property that holds for all inputs holds for these, too.
"""

from __future__ import annotations

from . import large, reuse
from .core import Rec, Skip, Violation
from .frame import Container, Frame, Storage

FRAMES = {
    "far": (1.0, (524288.0, 4194304.0, 1024.0)),
    "tiny": (2.0**-16, (0.0, 0.0, 0.0)),
    "large": (2.0**10, (0.0, 0.0, 0.0)),
}
KINDS = ("list", "tuple", "strided", "fortran", "readonly", "integer", "scalar")
STORAGES = ("reversed", "scrambled", "unused", "data")
LIMITS = {"quick": (400, 120, 100), "thorough": (2000, 500, 500)}
# checks whose oracles refer to points of the given meshes by number, and those where all points count (nodes, seeds, centers, heights)
BY_NUMBER = {"C16", "C17", "C23", "C27", "C28", "C29"}
COUNTING = {"C03", "C07", "C08", "C13", "C14", "C15", "C33"}
SLOW = {"C07", "C08", "C10", "C11", "C14", "C15", "C18", "C20", "C29"}


def create(setting):
    kind, name = setting.split(":")

    return Frame(*FRAMES[name]) if kind == "frame" else Container(name) if kind == "container" else Storage(name)


def frame_ok(case):
    return case.get("err") != "plane_ok" and not case.get("fixed")  # looks at the items of a stack; fixed coordinates


def storages(mod):
    kinds = STORAGES[3:] if mod.ID in BY_NUMBER else STORAGES[:2] + STORAGES[3:] if mod.ID in COUNTING else STORAGES

    return tuple(f"storage:{k}" for k in kinds)


def spaces(mod, tier):
    """The spaces of a module together with those in other settings."""
    out = list(mod.spaces(tier))

    if mod.ID in reuse.REUSING:
        return out

    frames, kinds, stored = [n // 2 if mod.ID in SLOW else n for n in LIMITS[tier]]
    mods = [mod]
    out += reuse.thin(tier, frames, keep=frame_ok, extra=dict(setting=tuple(f"frame:{f}" for f in FRAMES)), mods=mods, label="frames")
    out += reuse.thin(tier, kinds, extra=dict(setting=tuple(f"container:{k}" for k in KINDS)), mods=mods, label="containers")
    out += reuse.thin(tier, stored, extra=dict(setting=storages(mod)), mods=mods, label="storage")

    return out + large.spaces(mod)


def run(mod, case, rec, setting):
    """Execute a case in another setting; it has to hold if it holds in the original one."""
    rec.setting = create(setting)

    try:
        mod.run(case, rec)

    except Skip:
        raise

    except Exception as e:  # noqa: BLE001
        rec.setting = None

        try:
            mod.run(case, Rec())

        except Exception:  # noqa: BLE001  (decided in the original setting)
            return

        if isinstance(e, Violation):
            raise

        raise Violation(f"{type(e).__name__}: {e} (only in another setting: {setting})")

    finally:
        rec.setting = None
