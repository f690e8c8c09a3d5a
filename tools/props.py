#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), technique="", level="model_checking", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  state=state, observe=observe, technique=technique, level=level, note=note))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in sorted(P, key=lambda p: p["id"])],
    "not_applicable": [],
    "notes": "No hooks in /repo: every harness is added at build time with go build -overlay/-modfile (tools/build.py). VERIF_REPLAY=<file> bash run.sh <ID> replays a reported case.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
