#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand, not by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [w for _, w in mech], hook_needed=None),
                  technique=technique, note=note))


NOTE = "Exploration of generated inputs against an explicit oracle; built from /repo's sources with AddressSanitizer and poisoned allocations, so stray memory accesses and use of unset data count as failures. "
exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="No hooks: the harnesses use the public and protected interfaces of the sources. Each check rebuilds /repo's sources into /verif/build. Replay a failure with: python3 /verif/check.py replay <file>.")
for p in P:
    man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py run %s --tier quick" % p["id"], thorough_cmd="python3 check.py run %s --tier thorough" % p["id"],
                              evidence_file="evidence/%s.json" % p["id"], technique="property-based testing: " + p["technique"], level="exploration", level_note=NOTE + p["note"]))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
