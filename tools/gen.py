"""Generate properties.jsonl and MANIFEST.json from the PROPERTY records of mc/props/c*.py."""

import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECHNIQUE = "exhaustive bounded enumeration of cases/operation sequences, each executed on the real code and compared with an explicit reference model"


def main():
    props, checks = [], []

    for path in sorted(glob.glob(os.path.join(ROOT, "mc", "props", "c[0-9]*.py"))):
        mod = importlib.import_module("mc.props." + os.path.basename(path)[:-3])
        p = mod.PROPERTY
        n = len(re.findall(r"[.?!](?=\s|$)", p["statement"]))

        if n > 3 or len(p["title"]) > 80:
            print(f"{mod.ID}: {n} sentences, title of {len(p['title'])}")

        props.append(
            {
                "id": mod.ID,
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": p["quantifier"],
                "why_tests_cant": p["why_tests_cant"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": p["mechanism"],
                    **({"state": p["state"]} if "state" in p else {}),
                    "observe_at": p.get("observe_at", ["returned meshes and raised exceptions of the public functions"]),
                    "hook_needed": None,
                },
            }
        )
        checks.append(
            {
                "property": mod.ID,
                "quick_cmd": f"bash run.sh {mod.ID} quick",
                "thorough_cmd": f"bash run.sh {mod.ID} thorough",
                "evidence_file": f"evidence/{mod.ID}.json",
                "technique": p.get("technique", TECHNIQUE),
                "level": "model_checking",
                "level_note": p["level_note"],
            }
        )

    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")

    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, pyvista, scipy, shapely\" && bash -n run.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks are needed: every check drives the public API of /repo's working tree (imported through "
        "PYTHONPATH) and observes returned objects only. DESIGN.md describes the models and bounds.",
    }

    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
