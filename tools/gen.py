"""Writes properties.jsonl and MANIFEST.json from the table below (python3-vt tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "ros_bt_py/ros_bt_py/"
LV = "Bounded model checking: holds for every value and history inside the stated bounds; nothing is claimed outside them. "
TECH = ("Symbolic execution of the real Python modules (every module of ros_bt_py is re-instrumented from the working tree at import), "
        "path conditions and assertions decided by Z3, counterexamples replayed on the uninstrumented code")
NOTE = {
    "flow": "child results, option values and the calls made are solver variables; child count and number of calls are bounded (see evidence)",
}

P = []


def p(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": [B + f if not f.startswith("/") else f[1:] for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

NA = json.load(open(os.path.join(HERE, "tools", "na.json")))
props = [(d, n) for d, n in P if os.path.exists(os.path.join(HERE, "harness", d["id"] + ".py")) or d["id"] in NA]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _ in props:
        f.write(json.dumps(d) + "\n")
checks = []
for d, note in props:
    i = d["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3-vt -m vf.run %s --tier quick" % i,
                   "thorough_cmd": "python3-vt -m vf.run %s --tier thorough" % i,
                   "technique": TECH, "level": "model_checking", "level_note": LV + note})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, yaml, packaging, typeguard'", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks")
