"""Regenerates known_findings.json (fixed entries carry the commit of the repair)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "kf_table.py")).read())
log = {}
for line in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    log[s] = h
fixed = ["fixed: property=%s %s %s" % (prop, log[s], what) for prop, s, what in FIXED]
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(FINDINGS), "findings", len(fixed), "fixed")
