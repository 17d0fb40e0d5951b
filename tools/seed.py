"""
Plant bugs: python tools/seed.py DEFS.py [ID ...]   (DEFS.py defines SEEDS, a list of dicts)

For every seed the change is made in a scratch copy of /repo, the test suite is run on it, the demonstration is run on the
clean and on the changed copy, the check of its property is run on the changed copy, and seeded/<id>/ is written if it is valid.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASELINE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])

    for s in seeds:
        sid = s["id"]

        if only and sid not in only:
            continue

        sc = f"/tmp/seed_{sid}"
        shutil.rmtree(sc, ignore_errors=True)
        shutil.copytree("/repo", sc, symlinks=True)
        d = os.path.join(ROOT, "seeded", sid)
        os.makedirs(d, exist_ok=True)

        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].lstrip())

        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# run in the root of the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                    'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')

        clean = sh(f"bash {d}/demo.sh", cwd=sc, timeout=300)

        for fn, old, new in s["edits"]:
            p = os.path.join(sc, fn)
            text = open(p).read()
            assert text.count(old) == 1, (sid, fn, text.count(old))
            open(p, "w").write(text.replace(old, new))

        diff = sh("git diff", cwd=sc).stdout
        bad = sh(f"bash {d}/demo.sh", cwd=sc, timeout=300)
        t = sh(
            f"PYTHONPATH={sc} PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg timeout 800 xvfb-run -a /opt/venv/bin/python -m pytest -q -n 4 "
            f"-p no:cacheprovider --timeout=300 --tb=line -W ignore tests", cwd=sc,
        )
        tail = t.stdout.strip().splitlines()[-1]
        ok_tests = "135 passed" in tail
        valid = clean.returncode == 0 and bad.returncode != 0 and ok_tests
        pid = s["property"]
        c = sh(f"VERIF_REPO={sc} bash run.sh {pid} quick", cwd=ROOT)
        caught = c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout
        print(f"{sid}: property={pid} clean={clean.returncode} bad={bad.returncode} tests='{tail}' valid={valid} caught={caught} rc={c.returncode}", flush=True)

        if clean.returncode:
            print(clean.stdout[-500:], clean.stderr[-800:])

        if not valid:
            print(bad.stdout[-300:], [x for x in t.stdout.splitlines() if "FAILED" in x][:5])

        if c.returncode == 1:
            print("   ", [x for x in c.stdout.splitlines() if "->" in x][:1])

        if c.returncode not in (0, 1):
            print(c.stdout[-500:], c.stderr[-1500:])

        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)

        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": pid, "needs": s["needs"], "what_it_breaks": s["what"]}, f, indent=1)
            f.write("\n")

        if not valid:
            shutil.rmtree(d)

        shutil.rmtree(sc)


main()
