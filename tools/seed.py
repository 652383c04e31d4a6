"""Writes /verif/seeded from tools/seeds/*.py and verifies the planted bugs in a scratch copy.
python3-vt tools/seed.py [--write] [--check] [ID...]"""
import glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = {}


def seed(id, prop, file, edits, needs, breaks, demo, more=()):
    TABLE[id] = dict(id=id, prop=prop, files=[(file, edits)] + list(more), needs=needs, breaks=breaks, demo=demo)


for f in sorted(glob.glob(HERE + "/tools/seeds/*.py")):
    exec(open(f).read())
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = [i for i in TABLE if not args or i in args]
B = "ros_bt_py/ros_bt_py/"
S = "/tmp/seedrepo"
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", S])
bad = 0
for i in ids:
    t = TABLE[i]
    d = HERE + "/seeded/" + i
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    err = []
    for f, edits in t["files"]:
        p = S + "/" + B + f
        s = open(p).read()
        for e in edits:
            old, new = e[0], e[1]
            n = e[2] if len(e) > 2 else None
            if n is None and s.count(old) != 1:
                err.append("%s: %d matches of %r" % (f, s.count(old), old[:80]))
                continue
            if n is None:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert n + 1 < len(parts), (f, old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(s)
    if err:
        print(i, "EDIT FAILED", err); bad += 1
        continue
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    # changed lines must come from the original repository
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/env")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("from demolib import *\n" + t["demo"].strip("\n") + "\ndone()\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nD=$(cd "$(dirname "$0")" && pwd)\nVERIF_REPO="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3-vt "$D/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(HERE + "/tools/seedlib/demolib.py", d + "/demolib.py")
    open(d + "/env/__init__.py", "w").write("")
    for m in ("engine", "stubs", "instrument", "typecheck"):
        shutil.copy(HERE + "/vf/%s.py" % m, d + "/env/%s.py" % m)
    json.dump({"property": t["prop"], "needs": t["needs"], "what_it_breaks": t["breaks"]}, open(d + "/meta.json", "w"), indent=1)

    def demo():
        return subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True, timeout=300)
    r1 = demo()
    tests = subprocess.run("cd %s/ros_bt_py && . /opt/vp/env.sh && PYTHONPATH=%s/ros_bt_py:$PYTHONPATH /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_helpers.py tests/test_subtree_manager.py 2>&1 | tail -1" % (S, S),
                           shell=True, capture_output=True, text=True).stdout.strip()
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    r0 = demo()
    okd = r0.returncode == 0 and r1.returncode != 0 and "21 passed" in tests
    line = "%s demo clean=%d bug=%d %s tests=%s" % (i, r0.returncode, r1.returncode, "" if okd else "BAD", tests[:40])
    if not okd:
        bad += 1
        line += "\n" + (r0.stdout + r0.stderr)[-700:] + "\n" + (r1.stdout + r1.stderr)[-300:]
    elif "DEMO FAILED" not in r1.stdout:
        line += "   (crash) " + r1.stderr.strip().splitlines()[-1][:150]
    if "--check" in sys.argv:
        subprocess.check_call(["git", "-C", S, "apply", d + "/patch.diff"])
        c = subprocess.run(["python3-vt", "-m", "vf.run", t["prop"]], cwd=HERE, env=dict(os.environ, VERIF_REPO=S), capture_output=True, text=True)
        first = [x for x in c.stdout.splitlines() if x.startswith("counterexample")]
        line += "  check rc=%d %s" % (c.returncode, first[0][:170] if first else (c.stdout + c.stderr)[-200:])
        if c.returncode != 1:
            line += "  MISSED"
    print(line, flush=True)
shutil.rmtree(S)
print("bad:", bad)
