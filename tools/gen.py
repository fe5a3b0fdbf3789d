#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (developer tool, run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if hook is not None:
        a["hook_needed"] = hook
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                       why_tests_cant=why, anchors=a), technique, note))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p, _, _ in PROPS:
        fh.write(json.dumps(p) + "\n")
hooks = [x.split()[0] for x in subprocess.run(["git", "-C", "/repo", "log", "--oneline", "--no-abbrev-commit"], capture_output=True, text=True).stdout.splitlines() if " hook:" in x]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "PRINTEMPS_VERIF_TRACE", "enable": "the harnesses are compiled with -DPRINTEMPS_VERIF_TRACE (lib/vf.py build())", "source_commits": hooks},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": t, "level": "model_checking", "level_note": n} for p, t, n in PROPS],
     "not_applicable": NA}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
