"""Single source for properties.jsonl, MANIFEST.json.  Run: python tools/table.py"""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, claim=claim))


exec(open(os.path.join(D, "tools", "entries.py")).read())

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
claimed = [p for p in sorted(P, key=lambda p: p["id"]) if p["claim"] is True and os.path.exists(os.path.join(D, "vf/props", p["id"] + ".py"))]
rest = [p for p in P if p not in claimed]
M = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path[:0]=['.','/repo']; import vf.core, causallearn\"",
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p["claim"] if isinstance(p["claim"], str) else "no check has been built for it yet"} for p in rest],
     "notes": "Every check runs the real code of /repo in-process under monitors; no hooks in /repo are needed (registration points, wrappers and sys.monitoring are used from outside)."}
json.dump(M, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(claimed), "claimed")
