"""Writes DESIGN.md: tools/design_head.md, then one section per property (python3-vt tools/design.py)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D, L = {}, {}


def d(id, oracle, outside, why=""):
    D[id] = (oracle, outside, why)


exec(open(os.path.join(HERE, "tools", "design_text.py")).read())
import vf.run
from vf import instrument
for n in ("stubs",):
    importlib.import_module("vf." + n)
instrument.install(True)
NA = json.load(open(os.path.join(HERE, "tools", "na.json")))
KF = json.load(open(os.path.join(HERE, "known_findings.json")))
SEEDS = []
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    SEEDS.append((os.path.basename(os.path.dirname(m)), json.load(open(m))))
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["Anchored in " + ", ".join("`%s`" % os.path.basename(f) for f in p["anchors"]["files"]) + ". Quantifier: " + p["quantifier"]["text"], ""]
    if i in NA:
        out += ["Not applicable: " + NA[i], ""]
        continue
    oracle, outside, why = D[i]
    out += ["* **Specified against:** " + oracle]
    mod = importlib.import_module("harness." + i)
    for tier in ("quick", "thorough"):
        b = {}
        for h in vf.run.expand(mod, tier):
            b.setdefault(h.bounds, []).append(h.name.split("/")[0])
        if tier == "quick":
            q = b
            out += ["* **Harnesses and bounds (quick):** " + "; ".join("%s: %s" % ("/".join(sorted(set(v))), k) for k, v in list(b.items())[:14]) + ("; …" if len(b) > 14 else "") + "."]
        else:
            extra = [k for k in b if k not in q]
            if extra:
                out += ["* **Thorough adds:** " + "; ".join(extra[:8]) + ("; …" if len(extra) > 8 else "") + "."]
    for a in getattr(mod, "ASSUMPTIONS", ()):
        out += ["* **Assumes:** " + a + "."]
    out += ["* **Outside:** " + outside]
    fx = [x for x in KF["fixed"] if "property=%s " % i in x]
    if fx:
        out += ["* **Genuine defects found and repaired (%d):**" % len(fx)]
        out += ["  * `%s` %s" % tuple(x.split("property=%s " % i)[1].split(" ", 1)) for x in fx]
    kf = [x for x in KF["findings"] if x["property"] == i]
    if kf:
        out += ["* **Known findings (recorded, not repaired):**"] + ["  * `%s`: %s" % (x["id"], x["what"]) for x in kf]
    sd = [(n, m) for n, m in SEEDS if m["property"] == i]
    if sd:
        out += ["* **Planted bugs:**"] + ["  * `%s` (needs %s): %s." % (n, m["needs"], "caught" if n not in MISSED else "NOT caught: " + MISSED[n]) for n, m in sd]
    out.append("")
out += [TAIL.strip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
