#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os, subprocess
from meta import META, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(id, m):
    return {"id": id, "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["qtext"]},
            "why_tests_cant": m["why"], "anchors": {"files": m["files"], "mechanism": m["mechanism"]}}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for id in sorted({**META, **NOT_APPLICABLE}):
        m = META.get(id) or NOT_APPLICABLE[id]
        assert len(m["title"]) <= 80, (id, len(m["title"]))
        f.write(json.dumps(line(id, m)) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "cfg(dnglab_verif)", "enable": "RUSTFLAGS='--cfg dnglab_verif' (set by check.py); in-place contracts additionally need cfg(kani), which cargo kani sets",
                 "source_commits": [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]},
       "checks": [{"property": id, "quick_cmd": f"python3 check.py {id} --tier quick", "thorough_cmd": f"python3 check.py {id} --tier thorough",
                   "technique": m["technique"], "level": m["level"],
                   "level_note": (m["note"] + " " if m["note"] else "") + ("Bounds: " + m["bounds"] + ". " if m["bounds"] else "") + "Trusts Kani/CBMC, the stand-in crates and the assumptions listed in the evidence."}
                  for id, m in sorted(META.items())],
       "not_applicable": [{"property": id, "reason": m["reason"]} for id, m in sorted(NOT_APPLICABLE.items())]}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
def section(id, m):
    out = [f"### {id} {m['title']}", "", f"*Level {m['level']}; {m['technique']}.*", "", m["how"], ""]
    if m["bounds"]: out += ["Bounds: " + m["bounds"] + ".", ""]
    if m["assumptions"]: out += ["Assumed: " + "; ".join(m["assumptions"]) + ".", ""]
    out += ["Beyond tests: " + m["why"], "", "Anchors: " + ", ".join(f"`{f}`" for f in m["files"]) + "."]
    if m.get("design"): out += ["", m["design"]]
    return "\n".join(out)
res = json.load(open(os.path.join(ROOT, "tools", "seed_results.json")))
seeds = ["| id | property | change | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if os.path.isdir(os.path.join(ROOT, "seeded")) else []:
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {res.get(s, 'not run')} |")
t = open(os.path.join(ROOT, "tools", "design.tmpl")).read()
t = t.replace("@@PROPS@@", "\n\n".join(section(i, m) for i, m in sorted(META.items())))
t = t.replace("@@FINDINGS@@", "\n".join("* " + k["what"] for k in known))
t = t.replace("@@NA@@", "\n".join(f"* **{i}** {m['title']}: {m['reason']}" for i, m in sorted(NOT_APPLICABLE.items())))
if os.path.isdir(os.path.join(ROOT, "seeded")):
    t = t.replace("@@SEEDS@@", "\n".join(seeds))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
