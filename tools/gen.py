#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "vtdxml/parser/"; N = "vtdxml/navigation/"; B = "vtdxml/buffer/"; R = "vtdxml/reader/"; E = "vtdxml/erroring/"; C = "vtdxml/common/"
ALLF = [P+"parse.go", P+"common.go", N+"to_element.go", B+"long_buffer.go", R+"utf8_reader.go"]

props = []   # (id, dict, claim or reason)
def prop(id, title, statement, over, text, why, files, mech, observe, claim=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append((id, {"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, claim, na))

exec(open(os.path.join(here, "tools", "props.py")).read())

props.sort(key=lambda p: p[0])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for _, d, _, _ in props:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for id, d, claim, na in props:
    if claim:
        m["checks"].append({"property": id, "quick_cmd": "bash check.sh " + id, "thorough_cmd": "bash check.sh " + id,
            "technique": claim[0], "level": claim[1], "level_note": claim[2]})
    else:
        m["not_applicable"].append({"property": id, "reason": na})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
