"""
The spaces of the other checks, each with the largest deviation bound that keeps it below a limit.
"""

import glob
import os

from . import core

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
# checks that run the cases of other checks themselves
REUSING = ("C12", "C31", "C32", "C34")


def modules(skip=()):
    ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, "c[0-9]*.py")))

    return [core.load(i) for i in ids if i not in REUSING and i not in skip]


def wrap(mod, gen, name, keep, extra):
    def g(ctx):
        case = gen(ctx)

        if case is None or (keep is not None and not keep(case)):
            return None

        out = dict(mod=mod.ID, case={"space": name, **case})

        for k, values in (extra or {}).items():
            out[k] = ctx.choose(k, values, free=True)

        return out

    return g


def count(gen, bound, limit):
    n = 0

    for _ in core.enumerate_cases(gen, bound):
        n += 1

        if n > limit:
            return None

    return n


class Strict:
    """Every choice counts as a deviation."""

    def __init__(self, ctx):
        self.ctx = ctx

    def choose(self, name, options, free=False):
        return self.ctx.choose(name, options)

    def flag(self, name, free=False):
        return self.ctx.flag(name)


def strict(gen):
    return lambda ctx: gen(Strict(ctx))


def thin(tier, limit, skip=(), keep=None, extra=None, mods=None, label=None):
    """Every space as it is if it is small, or else with a bound on all its choices."""
    out = []

    for mod in modules(skip) if mods is None else mods:
        for name, gen, bound in mod.spaces(tier):
            if name.startswith(("scales", "large")):
                continue

            if count(gen, bound, limit) is None:
                gen, bound = strict(gen), 0

                while bound < 8 and count(gen, bound + 1, limit) is not None:
                    bound += 1

            out.append((f"{label or mod.ID} {name}", wrap(mod, gen, name, keep, extra), bound))

    return out


def spaces(tier, limit, skip=(), keep=None, extra=None):
    out = []

    for mod in modules(skip):
        mine, least, total = [], None, 0

        for name, gen, bound in mod.spaces(tier):
            if name == "large":
                continue

            best, m = None, 0

            for b in range((3 if bound is None else bound) + 1):
                n = count(gen, b, limit)

                if n is None:
                    break

                best, m = b, n

            total += m
            g = wrap(mod, gen, name, keep, extra)

            if best is not None:
                mine.append((f"{mod.ID} {name}", g, bound if best == 3 and bound is None else best))

            elif least is None:
                least = (f"{mod.ID} {name}", g, 0)

        out += mine

        if total < 400 and least is not None:
            out.append(least)

    return out
