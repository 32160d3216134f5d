#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, state=state, observe=observe, note=note)

PROPS = []
NA = []
exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
    for id, title, statement, over, qtext, why, files, mech, reason in NA:
        assert len(title) <= 80, id
        f.write(json.dumps({
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [], "mechanism": [dict(name=a, where=b) for a, b in mech],
                        "observe_at": [], "hook_needed": None}}, ensure_ascii=False) + "\n")

TECH = "deterministic simulation with fault injection (seeded search; choice-tape replay and minimisation)"
man = {
    "version": 1,
    "setup_cmd": "bash /verif/build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
        "evidence_file": f"/verif/evidence/{p['id']}.json",
        "technique": TECH,
        "level": "exploration",
        "level_note": p["note"] or "Seeded sampling of inputs, schedules and fault placements: no violation on everything explored, not a proof.",
    } for p in PROPS],
    "not_applicable": [dict(property=n[0], reason=n[8]) for n in NA],
    "notes": "No hooks were needed in /repo: every nondeterminism source the properties depend on already sits behind a trait, a Read/Write parameter, a byte buffer or a provider interface. fix: commits in /repo repair genuine defects (KNOWN_FINDINGS.txt).",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "claimed;", len(NA), "not applicable")
