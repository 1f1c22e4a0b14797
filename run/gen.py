#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/run")
from props import PROPS
from checks import CHECKS
import na
rows = []
for p in PROPS:
    rows.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
    assert len(p["title"]) <= 80, p["id"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
for p in na.EXTRA:
    rows.append(p)
ids = [r["id"] for r in rows]
assert len(set(ids)) == len(ids)
open(V + "/properties.jsonl", "w").write("".join(json.dumps(r) + "\n" for r in sorted(rows, key=lambda r: r["id"])))
m = dict(version=1, setup_cmd="./check setup",
         checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough", technique=p["technique"],
                      level="other", level_note=p["note"]) for p in PROPS if p["id"] in CHECKS],
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.NA.items())])
if na.HOOKS:
    m["hooks"] = na.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(rows), "properties,", len(m["checks"]), "checks")
missing = [i for i in ids if i not in CHECKS and i not in na.NA]
if missing:
    print("neither claimed nor declined:", missing)
# DESIGN.md
o = open(V + "/run/design_head.md").read()
o += "## Properties\n\n"
for p in sorted(PROPS, key=lambda p: p["id"]):
    eng = ", ".join(f"{e.rstrip('?')} `{c}`" + (f" ({', '.join(a)}*)" if a else "") for e, c, a in CHECKS.get(p["id"], [])) or "not claimed: " + na.NA.get(p["id"], "")
    o += f"**{p['id']} {p['title']}** ({eng}). {p['statement']}\n\n* Bounds: {p['text']}.\n* Tests: {p['why']}\n* How: {p['note']}\n* Encoded: " + "; ".join(f"`{w}`" for _, w in p["mech"]) + "\n\n"
o += "## Planted bugs\n\nEach compiles, passes the stable tests, and has a demonstration. No check reads `seeded/`.\n\n| change | what it breaks | what it needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m_ = json.load(open(f"{V}/seeded/{d}/meta.json"))
    o += f"| {d} | {m_['what_it_breaks']} | {m_['needs']} | {m_['property']} |\n"
tail = V + "/run/design_tail.md"
if os.path.exists(tail):
    o += "\n" + open(tail).read()
open(V + "/DESIGN.md", "w").write(o)
