"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), level="exploration", note="", technique=None, thorough=True):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=state,
                  observe=observe, level=level, note=note, technique=technique, thorough=thorough))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        anchors["observe_at"] = list(p["observe"]) or ["return values of the public functions"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
        assert len(p["title"]) <= 80, p["pid"]

na = {n["property"] for n in NA}
checks = []
for p in P:
    if p["pid"] in na:
        continue
    cmd = f"/opt/venv/bin/python run.py {p['pid']} --tier "
    c = {"property": p["pid"], "quick_cmd": cmd + "quick"}
    if p["thorough"]:
        c["thorough_cmd"] = cmd + "thorough"
    c["evidence_file"] = f"evidence/{p['pid']}.json"
    c["technique"] = p["technique"] or "Quint specification, trace validation of the recorded public API calls (quint run)"
    c["level"] = p["level"]
    c["level_note"] = p["note"] or ("The Quint specification states the law in exact fixed-point arithmetic and judges every recorded call; "
                                    "assurance is over the sampled, stratified inputs; trusts the recorder and num.qnt (tested against mpmath values).")
    checks.append(c)
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
       "notes": "Specifications in Quint under spec/, drivers under checks/, recorder and runner in lib/vf.py; known_findings.json lists findings and repaired defects."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
