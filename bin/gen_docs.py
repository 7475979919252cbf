#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from proplist.py and checks.py (run by hand, output committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from proplist import PL, NA, HOOKS
from checks import PROPS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as h:
    for p in PL:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=p.get("hook")))
        if p.get("state"): d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        h.write(json.dumps(d) + "\n")
checks = []
for p in PL:
    if p["id"] in NA: continue
    c = PROPS[p["id"]]
    e = dict(property=p["id"], quick_cmd=f"python3 bin/check.py {p['id']} quick", thorough_cmd=f"python3 bin/check.py {p['id']} thorough",
             technique=c.get("technique", "contract-based deductive verification with Verus of functions extracted from /repo on every run; the same contract executed on the real code supplies failing inputs"),
             level=c.get("level", "proof"), level_note=c["note"])
    if c.get("theorems"): e["theorems"] = c["theorems"]
    checks.append(e)
m = dict(version=1, setup_cmd="python3 bin/setup.py", hooks=HOOKS, checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="Verification units are regenerated from /repo by every check (vx/extract.py finds the functions by name, vx/unit.py puts the contracts around them). See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

SEED = os.path.join(ROOT, "docs", "seeded.json")
seeded = json.load(open(SEED)) if os.path.exists(SEED) else {}
with open(os.path.join(ROOT, "DESIGN.md"), "w") as h:
    h.write(open(os.path.join(ROOT, "docs", "design_head.md")).read())
    h.write("\n## The properties, and how each is decided\n")
    for p in PL:
        h.write(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
        if p["id"] in NA:
            h.write(f"**Not applicable**: {NA[p['id']]}\n"); continue
        c = PROPS[p["id"]]
        h.write(c.get("how", c["note"]).strip() + "\n\n*Why tests cannot:* " + p["why"] + "\n")
        if c.get("limits"): h.write("\n*Limits:* " + " ".join(c["limits"]) + "\n")
    tail = os.path.join(ROOT, "docs", "design_tail.md")
    if os.path.exists(tail): h.write("\n" + open(tail).read())
    h.write("\n## Planted bugs and what catches them\n\nEach is in seeded/<name>; `bin/sweep.py` runs the checks against each. \"proof: refuted\" means that a named obligation fails, \"no verdict\" that the change left the shape the contracts are anchored to, and only the executable contract decides.\n\n| planted bug | needs | outcome |\n|---|---|---|\n")
    for n in sorted(seeded):
        mp = os.path.join(ROOT, "seeded", n, "meta.json")
        if os.path.exists(mp): h.write(f"| {n} | {json.load(open(mp))['needs']} | {seeded[n]} |\n")
