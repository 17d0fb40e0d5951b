"""Write DESIGN.md."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]

for path in sorted(glob.glob(os.path.join(ROOT, "mc", "props", "c[0-9]*.py"))):
    mod = importlib.import_module("mc.props." + os.path.basename(path)[:-3])
    p = mod.PROPERTY
    out.append(f"### {mod.ID} {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    out.append("*Enumeration and oracle:* " + " ".join((mod.__doc__ or "").split()) + "\n")
    out.append(f"*Bounds:* {p['level_note']}\n")

    if getattr(mod, "ASSUMPTIONS", []):
        out.append("*Assumptions:* " + "; ".join(mod.ASSUMPTIONS) + ".\n")

    out.append(f"*What the tests cannot reach:* {p['why_tests_cant']}\n")
    ev = os.path.join(ROOT, "evidence", f"{mod.ID}.json")

    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]

        if e["tier"] == "quick":
            out.append(f"*Cost:* {c['enumerated_cases']} cases, {c['transitions']} calls, about {max(5, 5 * round(e['wall_s'] / 5))} s.\n")

tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
other = [s for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if f"| {s} |" not in tail]
out.append(tail.replace("SEEDS_OTHER", ", ".join(f"{s} ({json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))['property']})" for s in other)))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
