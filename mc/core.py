"""
Explorer: exhaustive, deviation-bounded enumeration of choice trees, executed on the real code.

A property module (mc/props/cXX.py) provides

    ID                    property id
    spaces(tier)          -> list of (name, gen, max_deviations | None)
    run(case, rec)        executes one case on the real code and raises Violation on a mismatch

``gen(ctx)`` builds a JSON-able case; every nondeterministic decision goes through ``ctx.choose``.
The explorer enumerates *every* choice sequence (option 0 is the default; a non-default option of a
non-free choice point costs one deviation), so a case list is a pure function of the tier: nothing is
sampled.  Cases are executed in worker processes, and a worker that dies or hangs on a case is a
violation attributed to that case.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The implementation disagrees with the reference model."""


class PurityViolation(Exception):
    """A call modified one of the caller's objects (only raised in purity mode)."""


class Skip(Exception):
    """The case is outside of the model's domain (counted, never silently dropped)."""


# --------------------------------------------------------------------------- choice trees
class Ctx:
    def __init__(self, prefix, bound):
        self.prefix = prefix
        self.bound = bound
        self.choices = []
        self.sizes = []
        self.free = []
        self.dev = 0

    def choose(self, name, options, free=False):
        options = list(options)
        i = len(self.choices)

        if i < len(self.prefix):
            c = self.prefix[i]

            if c >= len(options):
                raise RuntimeError(f"choice out of range while replaying prefix at '{name}'")

        else:
            c = 0

        self.choices.append(c)
        self.sizes.append(len(options))
        self.free.append(free)

        if c and not free:
            self.dev += 1

        return options[c]

    def flag(self, name, free=False):
        return self.choose(name, (False, True), free)


def enumerate_cases(gen, bound=None):
    """Depth-first enumeration of all choice sequences with at most *bound* deviations."""
    stack = [[]]

    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, bound)
        case = gen(ctx)

        # Children: alternative choices at every point after the prefix
        children = []
        dev = sum(1 for c, f in zip(prefix, ctx.free) if c and not f)

        for i in range(len(prefix), len(ctx.choices)):
            if not ctx.free[i] and bound is not None and dev + 1 > bound:
                continue

            for alt in range(1, ctx.sizes[i]):
                children.append(ctx.choices[:i] + [alt])

        stack.extend(reversed(children))

        if case is not None:
            yield case, ctx.dev


# --------------------------------------------------------------------------- recorder
class Rec:
    """Per-worker recorder: counts transitions, collects canonical states, monitors purity."""

    def __init__(self, purity=False):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.purity = purity
        self.setting = None  # another frame or another container for the arguments (see frame.py)
        self.registry = []
        self.checked = 0

    def begin(self):
        self.registry = []

    def call(self, fn, *args, **kwargs):
        self.transitions += 1

        if self.setting is not None:
            if not self.purity:
                return self.setting.call(fn, args, kwargs)

            args, kwargs = self.setting.arguments(fn, args, kwargs)

        if not self.purity:
            return fn(*args, **kwargs)

        from . import geo

        for a in list(args) + list(kwargs.values()):
            for b in a if isinstance(a, (list, tuple)) else [a]:
                if geo.watchable(b) and not any(b is x for x, _ in self.registry):
                    self.registry.append((b, geo.snapshot(b)))

        try:
            return fn(*args, **kwargs)

        finally:
            name = getattr(fn, "__qualname__", getattr(fn, "__name__", repr(fn)))

            for b, snap in self.registry:
                self.checked += 1
                diff = geo.snapshot_diff(snap, geo.snapshot(b))

                if diff:
                    raise PurityViolation(f"{name} modified a caller-owned {type(b).__name__}: {diff}")

    def raises(self, exc, fn, *args, **kwargs):
        """The call has to raise *exc*."""
        try:
            res = self.call(fn, *args, **kwargs)

        except (PurityViolation, Skip):
            raise

        except exc:
            return

        except Exception as e:  # noqa: BLE001
            raise Violation(f"expected {exc}, got {type(e).__name__}: {e}")

        raise Violation(f"expected {exc}, call returned {type(res).__name__}")

    def state(self, *parts):
        self.states.add(digest(*parts))

    def outcome(self, *parts):
        self.outcomes.add(digest(*parts))


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)

    for p in parts:
        if hasattr(p, "dtype"):
            import numpy as np

            a = np.asarray(p)

            if a.dtype.kind == "f":
                a = np.round(a.astype(float), 6) + 0.0

            h.update(str(a.shape).encode())
            h.update(a.tobytes() if a.dtype.kind != "O" else repr(a.tolist()).encode())

        else:
            h.update(repr(p).encode())

        h.update(b"|")

    return h.digest()


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


# --------------------------------------------------------------------------- execution
ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "VTK_SMP_MAX_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
}


def load(pid):
    return importlib.import_module(f"mc.props.{pid.lower()}")


def check_import():
    """The code under test has to be the working tree."""
    import pvgridder

    path = os.path.dirname(os.path.dirname(os.path.abspath(pvgridder.__file__)))

    if os.path.realpath(path) != os.path.realpath(REPO):
        raise RuntimeError(f"pvgridder imported from {path}, not from {REPO}")


def run_one(mod, case, rec):
    """Return None or a violation message."""
    import warnings

    rec.begin()

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        try:
            if case.get("setting"):
                from . import settings

                settings.run(load(case["mod"]), case["case"], rec, case["setting"])

            elif case.get("large_kind"):
                from . import large

                large.run(mod, case, rec)

            else:
                mod.run(case, rec)

        except Skip:
            return "SKIP"

        except PurityViolation as e:
            return f"PurityViolation: {e}"

        except Violation as e:
            return f"{e}"

        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:])
            )
            return f"unexpected {type(e).__name__}: {e} [{where}]"

    return None


def _worker(pid, conn, cur, purity):
    try:
        import warnings

        warnings.simplefilter("ignore")
        sys.path.insert(0, VERIF)
        import pyvista as pv
        import vtk

        vtk.vtkObject.GlobalWarningDisplayOff()
        pv.OFF_SCREEN = True
        check_import()
        mod = load(pid)
        rec = Rec(purity=getattr(mod, "PURITY", purity))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        conn.send(("ready",))

        while True:
            chunk = conn.recv()

            if chunk is None:
                conn.send(("bye", rec.transitions, rec.states, rec.outcomes, rec.checked))
                return

            bad, skipped = [], 0

            for idx, case in chunk:
                with cur.get_lock():
                    cur[0] = idx
                    cur[1] = int(time.time())

                msg = run_one(mod, case, rec)

                if msg == "SKIP":
                    skipped += 1

                elif msg is not None:
                    bad.append((idx, msg))

            cur[0] = -1
            conn.send(("done", len(chunk), skipped, bad))

    except (EOFError, BrokenPipeError):
        pass

    except BaseException as e:  # noqa: BLE001
        try:
            conn.send(("fatal", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))

        except Exception:  # noqa: BLE001
            pass


class Pool:
    """Pool with crash and hang attribution."""

    def __init__(self, pid, n, hang_s):
        self.ctx = mp.get_context("spawn")
        self.pid = pid
        self.n = n
        self.hang_s = hang_s

    def start(self):
        parent, child = self.ctx.Pipe()
        cur = self.ctx.Array("q", [-1, 0])
        p = self.ctx.Process(target=_worker, args=(self.pid, child, cur, False), daemon=True)
        p.start()
        child.close()

        return {"p": p, "c": parent, "cur": cur, "busy": None, "ready": False, "bye": False}

    def map(self, cases, chunk_size, stop_after=25):
        """Execute every case. Returns statistics and a list of violations."""
        st = dict(executed=0, skipped=0, transitions=0, states=set(), outcomes=set(), checked=0)
        bad = []
        todo = [
            list(enumerate(cases[i : i + chunk_size], i)) for i in range(0, len(cases), chunk_size)
        ]
        todo.reverse()
        workers = [self.start() for _ in range(min(self.n, max(1, len(todo))))]
        finishing = False
        deaths = 0

        while True:
            if len(bad) >= stop_after:
                todo = []

            alive = [w for w in workers if not w["bye"]]

            if not alive:
                break

            ready = mp.connection.wait([w["c"] for w in alive], timeout=1.0)

            for w in alive:
                if w["c"] in ready:
                    try:
                        msg = w["c"].recv()

                    except (EOFError, ConnectionResetError):
                        w["p"].join(5)
                        idx = w["cur"][0]
                        deaths += 1

                        if w["busy"] is None or idx < 0:
                            raise RuntimeError(f"worker died outside of a case ({w['p'].exitcode})")

                        bad.append((int(idx), f"process died (exit code {w['p'].exitcode}) while executing this case"))
                        rest = [c for c in w["busy"] if c[0] > idx]
                        st["executed"] += len(w["busy"]) - len(rest)

                        if rest and deaths < 6:
                            todo.append(rest)

                        w["bye"] = True

                        if todo and deaths < 6:
                            workers.append(self.start())

                        continue

                    if msg[0] == "fatal":
                        raise RuntimeError(msg[1])

                    elif msg[0] == "ready":
                        w["ready"] = True

                    elif msg[0] == "done":
                        st["executed"] += msg[1]
                        st["skipped"] += msg[2]
                        bad += msg[3]
                        w["busy"] = None

                    elif msg[0] == "bye":
                        w["bye"] = True
                        st["transitions"] += msg[1]
                        st["states"] |= msg[2]
                        st["outcomes"] |= msg[3]
                        st["checked"] += msg[4]
                        w["p"].join(10)
                        continue

                    if w["busy"] is None:
                        chunk = todo.pop() if todo else None
                        w["busy"] = chunk if chunk is not None else []
                        w["c"].send(chunk)

                elif w["busy"] and w["cur"][0] >= 0 and time.time() - w["cur"][1] > self.hang_s:
                    idx = int(w["cur"][0])
                    bad.append((idx, f"no termination within {self.hang_s} s"))
                    w["p"].kill()
                    w["bye"] = True
                    rest = [c for c in w["busy"] if c[0] > idx]
                    st["executed"] += len(w["busy"]) - len(rest)
                    deaths += 1

                    if deaths < 6:
                        if rest:
                            todo.append(rest)

                        if todo:
                            workers.append(self.start())

        return st, bad


# --------------------------------------------------------------------------- known findings
def case_key(pid, case):
    return hashlib.sha256(f"{pid}:{json.dumps(case, sort_keys=True)}".encode()).hexdigest()[:16]


def known_findings(pid):
    """Lines 'known: property=<id> case=<key> <text>' of KNOWN_FINDINGS.txt."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                parts = line.split(None, 3)

                if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={pid}":
                    res[parts[2].split("=", 1)[1]] = parts[3].strip()

    return res


# --------------------------------------------------------------------------- entry point
def main(pid, tier, n_workers=None):
    from . import settings

    t0 = time.time()
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    mod = load(pid)
    cases, space_info = [], []

    for name, gen, bound in settings.spaces(mod, tier):
        n0, maxdev = len(cases), 0
        seen = set()

        for case, dev in enumerate_cases(gen, bound):
            case = {"space": name, **case}
            key = json.dumps(case, sort_keys=True)

            if key in seen:
                continue

            seen.add(key)
            cases.append(case)
            maxdev = max(maxdev, dev)

        space_info.append(
            {
                "space": name,
                "cases": len(cases) - n0,
                "deviation_bound": "none (full product)" if bound is None else bound,
                "max_deviations_reached": maxdev,
            }
        )

    n_workers = n_workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    chunk = max(1, min(40, len(cases) // (n_workers * 8) or 1))
    # Interleave so that expensive neighbouring cases are spread over the chunks
    pool = Pool(pid, n_workers, float(getattr(mod, "HANG_S", 240.0)))
    st, bad = pool.map(cases, chunk)
    known = known_findings(pid)
    violations, reported = [], set()

    for idx, msg in sorted(bad):
        key = case_key(pid, cases[idx])

        if key in known:
            if key not in reported:
                reported.add(key)
                print(f"KNOWN-FINDING: property={pid} {known[key]}")

        else:
            violations.append((idx, msg))

    replay = None

    if violations:
        idx, msg = violations[0]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}.json")

        with open(replay, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "case": cases[idx],
                    "message": msg,
                    "how": f"cd /verif && bash run.sh replay {replay}",
                    "others": [{"case": cases[i], "message": m} for i, m in violations[1:10]],
                },
                f,
                indent=1,
            )

        for i, m in violations[:5]:
            print(f"  case {json.dumps(cases[i])[:600]}\n    -> {m[:600]}")

    step = max(1, len(cases) // 4)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(st["states"]),
            "transitions": st["transitions"],
            "traces_validated_against_impl": st["executed"] - st["skipped"],
            "distinct_outcomes": len(st["outcomes"]),
            "outside_model_domain": st["skipped"],
            "enumerated_cases": len(cases),
            "exhaustive": st["executed"] == len(cases),
            "spaces": space_info,
            "rule": (mod.__doc__ or "").strip(),
            "samples": cases[::step][:5],
            **({"purity_comparisons": st["checked"]} if st["checked"] else {}),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    c = evidence["coverage"]
    print(
        f"{pid} [{tier}] cases={c['enumerated_cases']} executed={st['executed']} "
        f"states={c['states']} transitions={c['transitions']} outcomes={c['distinct_outcomes']} "
        f"outside={c['outside_model_domain']} wall={evidence['wall_s']}s"
    )

    if violations:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1

    if st["executed"] != len(cases):
        print("incomplete exploration")
        return 2

    return 0
