"""
Systematic mutants: python tools/mutate.py OUT.jsonl JOBS [file ...]   (run it from a copy of /verif)

Every small change of a fixed catalogue (comparison, arithmetic, constant, condition, branch, dropped statement or keyword) of
every function of the library is made in a scratch copy, and the checks of the properties of that function are run on it.
Changes that no check notices are run through the test suite; what survives both is printed for review.
"""

import ast
import json
import os
import shutil
import multiprocessing as mp
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "generate_arc": "C04 C01", "generate_line_from_two_points": "C04 C01", "generate_surface_from_two_lines": "C02 C07 C01", "generate_volume_from_two_surfaces": "C03 C08 C07 C01",
    "resolution_to_perc": "C01", "are_coincident": "C03", "repeat_structured_data": "C03", "translate": "C04",
    "RegularLine": "C06", "CurvedLine": "C06", "Polygon": "C05", "StructuredSurface": "C02 C01", "Volume": "C03 C01",
    "MeshBase": "C09 C11 C13 C07", "_check_point_array": "C14 C15", "_initialize_group_array": "C09 C13 C14", "_clean": "C09 C13 C07 C14", "_get_layer_ids": "C10", "_get_group_number": "C09",
    "MeshStackBase": "C07 C09 C10 C11 C12", "MeshStack2D": "C07 C09 C10 C11", "MeshStack3D": "C07 C09 C10 C11 C12", "MeshExtrude": "C08 C09 C10 C11 C12",
    "MeshMerge": "C13 C11 C12", "VoronoiMesh2D": "C14 C15 C11 C12", "MeshItem": "C07 C08 C13 C15",
    "average_points": "C23", "decimate_rdp": "C24", "extract_boundary_polygons": "C19", "extract_cell_geometry": "C16", "extract_cells": "C17", "extract_cells_by_dimension": "C17",
    "fuse_cells": "C18", "intersect_polyline": "C20", "merge": "C13", "merge_lines": "C22", "offset_polygon": "C25", "ray_cast": "C21", "reconstruct_line": "C26",
    "remap_categorical_data": "C27", "split_lines": "C22", "quadraticize": "C28", "get_neighborhood": "C16", "get_connectivity": "C16",
    "get_cell_connectivity": "C29", "get_cell_centers": "C29 C12", "get_cell_group": "C29", "get_dimension": "C29", "interactive_lasso_selection": "C30", "interactive_selection": "C30",
}
FORK = mp.get_context("fork")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum", "argmin": "argmax", "argmax": "argmin", "cos": "sin", "sin": "cos", "vstack": "hstack", "zeros": "ones", "ones": "zeros"}


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    starts = [0]

    for line in text.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))

    raw = text.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, owner, what):
        a, b = span(n)
        out.append((n.lineno, owner, what, a, b, new))

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, owner):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any("overload" in ast.unparse(d) or "abstract" in ast.unparse(d) for d in n.decorator_list):
                return

            owner = [*owner, n.name]

            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                        visit(d, owner)

            for s in n.body:
                visit(s, owner)

            return

        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and not getattr(n, "value", None):
            return

        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return

        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            return

        if owner:
            if isinstance(n, ast.Raise):
                add(n, "pass", owner, "no raise")
                return

            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", owner, "compare")

                if isinstance(n.ops[0], (ast.Lt, ast.GtE, ast.Gt, ast.LtE)):
                    o = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}[type(n.ops[0])]
                    add(n, f"{src(n.left)} {o} {src(n.comparators[0])}", owner, "reverse")

            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})", owner, "arith")

            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(n, src(n.operand), owner, "unary")

            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + op.join(f"({src(v)})" for v in n.values) + ")", owner, "bool")

            if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
                v = n.value
                news = [str(not v)] if isinstance(v, bool) else [str(v + 1)] + ([str(v - 1)] if v else []) if isinstance(v, int) else [repr(v * 2 if v else 1.0)]

                for w in news:
                    add(n, w if not w.startswith("-") else f"({w})", owner, "const")

            if isinstance(n, ast.IfExp):
                add(n, f"({src(n.body)})", owner, "first branch")
                add(n, f"({src(n.orelse)})", owner, "second branch")

            if isinstance(n, (ast.If, ast.While)):
                add(n.test, f"(not ({src(n.test)}))", owner, "negate")

                if isinstance(n, ast.If):
                    add(n.test, "False", owner, "never")
                    add(n.test, "True", owner, "always")

            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                add(n, "pass", owner, "drop statement")

            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                add(n, "pass", owner, "drop assignment")

            if isinstance(n, ast.Call):
                f = n.func

                for name, node in ((f.attr, f) if isinstance(f, ast.Attribute) else (f.id, f) if isinstance(f, ast.Name) else ("", f),):
                    if name in SWAP:
                        add(f, (src(f.value) + "." if isinstance(f, ast.Attribute) else "") + SWAP[name], owner, "swap")

                if isinstance(f, ast.Attribute) and f.attr in ("copy", "clean", "translate", "squeeze", "ravel", "astype") and isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                    add(n, src(f.value), owner, "drop call")

                if ast.unparse(f) in ("np.sort", "np.flip", "np.abs", "abs", "sorted", "np.unique", "np.roll", "np.array", "np.sign"):
                    add(n, src(n.args[0]), owner, "drop call")

                for k in n.keywords:
                    if k.arg and k.arg != "progress_bar":
                        ks = [x for x in [*n.args, *[q for q in n.keywords if q is not k]]]
                        add(n, f"{src(f)}({', '.join(src(x) if not isinstance(x, ast.keyword) else (x.arg + '=' if x.arg else '**') + src(x.value) for x in ks)})", owner, f"drop {k.arg}")

            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                add(n, src(n.value), owner, "no slice")

        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.JoinedStr, ast.arguments)):
                visit(c, owner)

    for s in tree.body:
        visit(s, [])

    return raw, out


def checks(path, owner):
    for o in reversed(owner):
        if o in MAP:
            return MAP[o].split()

    return {"geometric_objects.py": ["C04"]}.get(os.path.basename(path), [])


CAP = float(os.environ.get("MUT_CAP", "40"))  # seconds per check
CASES = {}


def prepare(pids):
    sys.path.insert(0, ROOT)
    from mc import core, settings

    os.environ.update(core.ENV)
    import pyvista as pv
    import vtk

    vtk.vtkObject.GlobalWarningDisplayOff()
    pv.OFF_SCREEN = True

    for pid in sorted(pids):
        mod = core.load(pid)
        cases, seen = [], set()

        for name, gen, bound in settings.spaces(mod, "quick"):
            for case, _ in core.enumerate_cases(gen, bound):
                case = {"space": name, **case}
                k = json.dumps(case, sort_keys=True)

                if k not in seen:
                    seen.add(k)
                    cases.append(case)

        n = len(cases)
        step = next(s for s in (7919, 7907, 7901, 7883) if n % s)
        CASES[pid] = (mod, [cases[(i * step) % n] for i in range(n)], core.known_findings(pid))


def child(rec, sc, ids, conn):
    """Runs the cases of the checks one by one until one fails."""
    from mc import core

    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.path.insert(0, sc)
    core.REPO = sc
    res = dict(by=None, cut=[])

    try:
        import pvgridder  # noqa: F401

    except BaseException:  # noqa: BLE001
        res["by"] = "import"
        conn.send(res)
        os._exit(0)

    for pid in ids:
        mod, cases, known = CASES[pid]
        r = core.Rec(purity=getattr(mod, "PURITY", False))
        t = time.time()

        for case in cases:
            msg = core.run_one(mod, case, r)

            if msg is not None and msg != "SKIP" and core.case_key(pid, case) not in known:
                res["by"] = pid
                break

            if time.time() - t > CAP:
                res["cut"].append(pid)
                break

        if res["by"]:
            break

    conn.send(res)
    os._exit(0)


def phase1(todo, jobs, f):
    running, todo = [], list(todo)[::-1]

    while todo or running:
        while todo and len(running) < jobs:
            path, raw, (line, owner, what, a, b, new) = todo.pop()
            changed = raw[:a] + new.encode() + raw[b:]
            rel = os.path.relpath(path, "/repo")
            rec = dict(file=rel, line=line, owner=".".join(owner), what=what, old=raw[a:b].decode()[:200], new=new[:200], a=a, b=b)

            try:
                compile(changed, path, "exec")

            except SyntaxError:
                continue

            sc = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
            shutil.copytree("/repo/pvgridder", sc + "/pvgridder", ignore=shutil.ignore_patterns("__pycache__"))

            with open(os.path.join(sc, rel), "wb") as g:
                g.write(changed)

            p, c = mp.Pipe()
            w = FORK.Process(target=child, args=(rec, sc, checks(path, owner), c))
            w.start()
            c.close()
            running.append((w, p, rec, sc, time.time(), new))

        for x in list(running):
            w, p, rec, sc, t, new = x
            res = None

            if p.poll(0):
                try:
                    res = p.recv()

                except EOFError:
                    res = dict(by="crash")

            elif not w.is_alive() and not p.poll(0):
                res = dict(by="crash")

            elif time.time() - t > 6 * CAP:
                w.kill()
                res = dict(by="hang")

            if res is not None:
                w.join(5)
                running.remove(x)
                shutil.rmtree(sc, ignore_errors=True)
                rec.update(res)
                rec["full_new"] = new
                f.write(json.dumps(rec) + "\n")
                f.flush()

        time.sleep(0.02)


def phase2(rec):
    """Test suite, then the complete checks that were cut short."""
    sc = tempfile.mkdtemp(prefix="mut_", dir="/tmp")

    try:
        shutil.rmtree(sc)
        shutil.copytree("/repo", sc, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(sc, rec["file"])
        raw = open(p, "rb").read()

        with open(p, "wb") as g:
            g.write(raw[: rec["a"]] + rec["full_new"].encode() + raw[rec["b"] :])

        t = subprocess.run(
            f"PYTHONPATH={sc} PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg timeout 800 xvfb-run -a /opt/venv/bin/python -m pytest -q -n 2 -p no:cacheprovider --timeout=300 --tb=line -W ignore tests",
            shell=True, cwd=sc, capture_output=True, text=True,
        )
        rec["tests"] = (t.stdout.strip().splitlines() or ["?"])[-1]

        if "135 passed" in rec["tests"]:
            for pid in rec["cut"]:
                q = subprocess.run(["bash", "run.sh", pid, "quick"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=sc, VERIF_WORKERS="2", PYTHONPATH=""), capture_output=True, text=True)

                if q.returncode:
                    rec["by"] = pid
                    break

    finally:
        shutil.rmtree(sc, ignore_errors=True)

    return rec


def main():
    out, jobs, only = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    done = []

    if os.path.exists(out):
        done = [json.loads(x) for x in open(out)]

    keys = {(d["file"], d["a"], d["b"], d["full_new"]) for d in done}
    todo = []

    for d, _, fs in os.walk("/repo/pvgridder"):
        for f in sorted(fs):
            p = os.path.join(d, f)

            if f.endswith(".py") and (not only or any(o in p for o in only)) and "examples" not in p:
                raw, ms = mutants(p)
                todo += [(p, raw, m) for m in ms if (os.path.relpath(p, "/repo"), m[3], m[4], m[5]) not in keys and checks(p, m[1])]

    print(len(todo), "mutants", flush=True)
    prepare({c for p, _, m in todo for c in checks(p, m[1])})

    with open(out, "a") as f:
        phase1(todo, jobs, f)

    survivors = [r for r in map(json.loads, open(out)) if r["by"] is None and not any(r["file"] == x["file"] and r["a"] == x["a"] and x.get("tests") for x in done)]
    print(len(survivors), "survivors", flush=True)

    with ThreadPoolExecutor(max(1, jobs // 2)) as ex, open(out + ".survivors", "a") as f:
        for r in ex.map(phase2, survivors):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
