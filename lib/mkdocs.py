#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TECH = {}
LEVEL = {}


def prop(id, title, statement, over, text, cant, files, mech, tech, note, observe=None, hook=None, level="exploration"):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": cant,
                  "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": hook}})
    TECH[id] = tech
    LEVEL[id] = (level, note)


exec(open(os.path.join(V, "lib", "props_table.py"), encoding="utf8").read())

NA = {}
WHY = {"C12": "monitoring applies, but the unchanged tree violates the property in nearly every history (single transactions included: mixed versions in reads, damage by "
              "DELETE DATA of absent triples, remains of rolled back insertions), which takes a redesign to repair; a check could not tell new violations from these. See DESIGN.md"}
checks = []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": LEVEL[i][0], "level_note": LEVEL[i][1]})
    else:
        NA[i] = WHY.get(i, "no check built")
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf8") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan gsdrv",
     "hooks": {"guard": "GSTORE_VERIF", "enable": "lib/build.py compiles every source with -DGSTORE_VERIF", "source_commits": HOOKS},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid: %d properties, %d checks" % (len(PROPS), len(checks)))
except ImportError:
    print("written (not validated)")
