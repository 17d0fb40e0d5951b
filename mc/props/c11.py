"""
Explicit enumeration of all operation sequences up to a depth on every builder (2D stack, 3D stack on structured and unstructured bases,
extrusion, merge, Voronoi). Operations are additions of several kinds, failing additions, generate_mesh, generate_mesh followed by vandalising the returned mesh,
driving a second builder on the same inputs, and in-place changes of the inputs by the caller. After every sequence the mesh generated by the real builder is compared with the one of a fresh builder
that received the additions only, and the builder's items and inputs are compared with their state before each generation.
"""

import numpy as np
import pyvista as pv

from .. import geo, layers
from ..core import Violation, check

ID = "C11"
PROPERTY = dict(
    title="Builders depend on their additions only, never on earlier generations",
    statement=(
        "The mesh returned by generate_mesh of MeshStack2D, MeshStack3D, MeshExtrude, MeshMerge and VoronoiMesh2D is a function of the constructor arguments and the sequence of "
        "successful additions alone: generating once, repeatedly or between additions (also with other options), modifying a mesh returned earlier, additions that raised an error, later changes of the given meshes and point arrays by the caller, and other "
        "builders working on the same inputs make no difference. Generating leaves the items of the builder (meshes, groups, priorities) and the inputs unchanged, "
        "and every add method returns the builder itself."
    ),
    quantifier=dict(
        over=["histories"],
        text="every interleaving of additions, failing additions, generations, modifications of returned and given meshes and use of other builders up to the explored depth",
    ),
    why_tests_cant="Tests build and generate once; dependence on history only shows in particular interleavings.",
    files=["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py", "pvgridder/core/merge.py", "pvgridder/core/voronoi.py"],
    mechanism=[
        dict(name="items and cutting of items", where="core/_base.py MeshStackBase._generate_mesh"),
        dict(name="group dictionaries and clean-up", where="core/_base.py MeshBase._initialize_group_array, _clean"),
        dict(name="Voronoi points and fuse list", where="core/voronoi.py VoronoiMesh2D.generate_mesh"),
    ],
    state=["builder items", "transition flag", "fuse list", "base mesh"],
    level_note="All sequences of up to 3 (quick) or 4 (thorough) operations per builder, and of 4 or 6 operations of a reduced alphabet.",
)
ASSUMPTIONS = []

OPS = {
    "stack2d": ["scalar", "cross", "trans", "T", "G", "V", "E", "F", "I", "M"],
    "stack3d": ["scalar", "cross", "plane", "G", "V", "O", "E", "F", "I", "M"],
    "stack3du": ["scalar", "cross", "data", "G", "V", "O", "E", "F", "I", "M"],
    "extrude": ["move", "turn", "group", "G", "V", "O", "E", "I", "M"],
    "merge": ["a", "b", "c", "G", "V", "O", "E", "I", "M"],
    "extrudei": ["move", "turn", "G", "V", "M"],
    "extrudeu": ["move", "turn", "G", "V", "M"],
    "voronoii": ["pts", "grid", "G", "V", "M"],
    "voronoi": ["pts", "circle", "line", "grid", "G", "V", "O", "E", "F", "I", "M"],
}
# G: generate, V: generate and vandalise the result, O: generate with other options, E, F: failing additions,
# I: another builder on the same inputs, M: the caller modifies its meshes and arrays in place, T: request a transition for the next addition
ADDS = {"T", "scalar", "cross", "trans", "plane", "data", "move", "turn", "group", "a", "b", "c", "pts", "circle", "line", "grid"}


def gen(builders, depth, short=False):
    def g(ctx):
        b = ctx.choose("builder", builders, free=True)
        n = depth if short else ctx.choose("n", list(range(1, depth + 1)), free=True)
        ops = [ctx.choose(f"op{i}", OPS[b][:2] + ["G", "V", "M"] if short else OPS[b], free=True) for i in range(n)]

        # a surface crossing a transition layer has no layered model
        for t in ("trans", "T"):
            if t in ops and "cross" in ops[ops.index(t) :]:
                return None

        # histories without a generation, an error or a second builder are plain use
        if not any(o in "GVOEFIM" for o in ops):
            return None

        if ops[-1] in ("G",):  # the final generation is implied
            return None

        return dict(builder=b, ops=ops)

    return g


def spaces(tier):
    fast = ["stack2d", "stack3d", "stack3du", "extrude", "merge", "extrudei", "extrudeu"]

    if tier == "quick":
        return [("layered", gen(fast, 3), None), ("layered_deep", gen(fast, 4, True), None), ("voronoi", gen(["voronoi", "voronoii"], 3), None)]

    return [("layered", gen(fast, 4), None), ("layered_deep", gen(fast, 6, True), None), ("voronoi", gen(["voronoi", "voronoii"], 4), None)]


def inputs(kind):
    if kind == "stack2d":
        p = np.array([(0, 0, 0), (1, 0, 0), (2.5, 0, 0), (3, 0, 0)], float)
        return [pv.PolyData(p, lines=[4, 0, 1, 2, 3])]

    if kind in ("stack3d", "extrude", "extrudei", "extrudeu", "stack3du"):
        m = layers.base_mesh("mixed" if kind in ("stack3du", "extrudeu") else "s2x1", 2)[0] if kind != "extrudei" else pv.ImageData(dimensions=(3, 3, 1))
        m.cell_data["CellGroup"] = np.arange(m.n_cells) % 2
        m.user_dict["CellGroup"] = {"A": 0, "B": 1}
        return [m, DATA * [1, 1, -1 if kind == "stack3du" else 1]]

    if kind == "merge":
        a = pv.ImageData(dimensions=(3, 2, 1)).cast_to_structured_grid()
        a.cell_data["CellGroup"] = [1, 0]
        a.user_dict["CellGroup"] = {"A": 1, "B": 0}
        b = pv.ImageData(dimensions=(2, 2, 1), origin=(2, 0, 0)).cast_to_structured_grid().cast_to_unstructured_grid()
        c = pv.PolyData(np.array([(0, 1, 0), (1, 1, 0), (0.5, 2, 0)], float), faces=[3, 0, 1, 2])
        c.cell_data["CellGroup"] = [4]
        c.user_dict["CellGroup"] = {"B": 4}
        return [a, b, c]

    m = pv.ImageData(dimensions=(4, 4, 1), origin=(0.0, 0.0, 0.0))
    g = pv.ImageData(dimensions=(3, 3, 1), spacing=(0.4, 0.4, 1), origin=(1.1, 1.1, 0))

    if kind == "voronoi":
        m, g = m.cast_to_structured_grid(), g.cast_to_structured_grid()

    m.cell_data["CellGroup"] = np.arange(9) % 2
    m.user_dict["CellGroup"] = {"A": 0, "B": 1}
    return [m, g, np.array([(1.2, 1.3), (2.1, 0.9)]), np.array([(0.6, 0.5, 0.0), (2.3, 2.2, 0.0)]), np.array((1.4, 1.6, 0.0))]


def modify(inp):
    """In place, as the owner of the inputs may do."""
    for x in inp:
        if isinstance(x, np.ndarray):
            x += 0.125
            continue

        if isinstance(x, pv.ImageData):
            x.origin = np.add(x.origin, 0.125)

        else:
            x.points[...] += 0.125  # the arrays of the mesh itself

        if "CellGroup" in x.cell_data:
            x.cell_data["CellGroup"][...] = x.cell_data["CellGroup"][::-1].copy()
            x.user_dict["CellGroup"] = {"A": 0, "N": 1, "O": 4}


DATA = np.array([(-1, -1, 5), (-1, 6, 5), (6, -1, 6), (6, 6, 6)], float)


def create(pvg, kind, inps):
    ign, inp = ["B"], inps[0]
    b = {
        "stack2d": lambda: pvg.MeshStack2D(inp),
        "stack3d": lambda: pvg.MeshStack3D(inp, ignore_groups=ign),
        "stack3du": lambda: pvg.MeshStack3D(inp, bottom_up=False, default_group="d"),
        "extrude": lambda: pvg.MeshExtrude(inp, angle=10.0),
        "extrudei": lambda: pvg.MeshExtrude(inp),
        "extrudeu": lambda: pvg.MeshExtrude(inp),
        "voronoii": lambda: pvg.VoronoiMesh2D(inp),
        "merge": lambda: pvg.MeshMerge(),
        "voronoi": lambda: pvg.VoronoiMesh2D(inp),
    }[kind]()

    if kind.startswith("stack"):
        b.add(0.0)
        b.add(1.0, 2, group="base")

    elif kind.startswith("extrude"):
        b.add((0, 0, 1.0))

    elif kind == "merge":
        b.add(inp)

    return b


def add(kind, b, op, inp):
    """Returns what the add method returns."""
    s = 1.0 if kind != "stack3du" else -1.0

    if op == "scalar":
        return b.add(1.5, 2, group="S")

    if op == "cross":
        return b.add(lambda x, y, z: 1.25 * s + 0.0 * x + s * 1.5 * (x < 1.5), priority=1, thickness=0.25, group={"C": "A"} if kind == "stack3d" else {"C": [0]})

    if op == "trans":
        b.set_transition(2)
        h = 9.0 + 4.0 * len(b.items)
        return b.add(lambda x, y, z: h + 0.0 * x, group="T")

    if op == "T":
        return b.set_transition(3 if len(b.items) % 2 else 2)

    if op == "plane":
        return b.add_plane([5.0, 3.0, 0.0], [0.0, 0.0, 6.0], group={"P": lambda m: [0]})

    if op == "data":
        return b.add(inp[1], 1)

    if op == "move":
        return b.add((0, 0, 2.0), 2, group="M")

    if op == "turn":
        return b.add((0.5, 0, 1.0), scale=0.5, angle=45.0)

    if op == "group":
        return b.add((0, 0, 1.0), group={"X": "A", "~Y": "B"})

    if op in "abc":
        return b.add(inp["abc".index(op)], "G" if op == "b" else None)

    if op == "pts":
        return b.add(inp[2], priority=1, group="P")

    if op == "circle":
        return b.add_circle(0.5, resolution=6, center=inp[4], plain=True, priority=2, group="W")

    if op == "line":
        return b.add_polyline(inp[3], 0.3, priority=1, group="L")

    return b.add(inp[1], group="Q")


def fail(*args):
    raise ValueError("this callable fails")


def bad_add(kind, b, op):
    if kind.startswith("stack"):
        b.add([1.0, 2.0, 3.0]) if op == "E" else b.add(fail, group="bad")

    elif kind == "extrude":
        b.add((1.0, 2.0))

    elif kind == "merge":
        b.add(None)

    elif op == "E":
        b.add_circle(1.0, constraint_radius=0.5, plain=True)

    else:
        b.add(np.zeros((2, 4)))


def generate(kind, b, op=None):
    if op != "O":
        return b.generate_mesh()

    if kind == "voronoi":
        return b.generate_mesh(infinity=50.0, min_length=0.0, orientation="CW", tolerance=1e-6)

    return b.generate_mesh(tolerance=1e-3)


def vandalise(m):
    p = np.array(m.points)
    m.points = p * 3.0 + 100.0

    for k in list(m.cell_data.keys()):
        m.cell_data[k][...] = 1

    m.user_dict["CellGroup"] = {"vandal": 1}
    m.clear_data()


def same(a, b):
    if type(a) is not type(b):
        return f"type {type(a).__name__} instead of {type(b).__name__}"

    sa, sb = geo.snapshot(a, True), geo.snapshot(b, True)

    for k in sa:
        if k in ("points",):
            if not geo.close(sa[k], sb[k], 1e-9):
                return "points"

        elif k in ("cell_data", "point_data"):
            if set(sa[k]) != set(sb[k]):
                return f"{k} {sorted(sa[k])} instead of {sorted(sb[k])}"

            for q in sa[k]:
                if not geo.close(sa[k][q], sb[k][q], 1e-9):
                    return f"{k} '{q}'"

        elif not geo._eq(sa[k], sb[k]):
            return f"{k}: {sa[k]} instead of {sb[k]}" if k in ("user_dict", "type") else k

    return ""


def items_state(b):
    out = []

    for it in b.items:
        d = {k: v for k, v in vars(it).items() if k != "_mesh"}
        out.append((geo.snapshot(it.mesh), repr(sorted((k, repr(v)) for k, v in d.items()))))

    return out


def run(case, rec):
    import pvgridder as pvg

    kind = case["builder"]
    inp = inputs(kind)
    snap = [geo.snapshot(x) for x in inp]
    b = create(pvg, kind, inp)
    adds = []

    for op in case["ops"]:
        rec.transitions += 1

        if op in ADDS:
            r = add(kind, b, op, inp)
            check(r is b, "'{}' does not return the builder", op)
            adds.append(op)

        elif op == "M":
            modify(inp)
            snap = [geo.snapshot(x) for x in inp]
            adds.append(op)

        elif op in "EF":
            try:
                bad_add(kind, b, op)

            except (ValueError, AttributeError):
                pass

            else:
                raise Violation("invalid addition accepted")

        elif op == "I":  # another builder on the same inputs
            b2 = create(pvg, kind, inp)
            add(kind, b2, OPS[kind][1], inp)
            m = generate(kind, b2)
            vandalise(m)

        else:
            before = items_state(b)
            m = generate(kind, b, op)
            after = items_state(b)
            check(len(before) == len(after), "generate_mesh changed the number of items")

            for i, (x, y) in enumerate(zip(before, after)):
                d = geo.snapshot_diff(x[0], y[0])
                check(not d, "generate_mesh modified the mesh of item {}: {}", i, d)
                check(x[1] == y[1], "generate_mesh modified the attributes of item {}", i)

            if op == "V":
                vandalise(m)

    got = generate(kind, b)
    fresh_inp = inputs(kind)
    fresh = create(pvg, kind, [x.copy() for x in fresh_inp])

    for op in adds:
        if op == "M":
            modify(fresh_inp)

        else:
            add(kind, fresh, op, [x.copy() for x in fresh_inp])

    ref = generate(kind, fresh)
    d = same(got, ref)
    check(not d, "mesh after {} differs from the one of the additions {} alone: {}", case["ops"], adds, d)

    for x, s in zip(inp, snap):
        d = geo.snapshot_diff(s, geo.snapshot(x))
        check(not d, "input mesh modified: {}", d)

    rec.state(kind, tuple(adds), tuple(case["ops"]))
    rec.outcome(kind, *geo.mesh_digest_parts(got))
