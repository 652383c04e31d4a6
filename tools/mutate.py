"""Mutation testing of the checks: small changes of the repository, each run against the checks whose properties name the file.

python3-vt tools/mutate.py list|run N SEED [FILE...]     results in /tmp/mut/log.jsonl; works on a copy in /tmp/mut/repo
No registered check uses this."""
import ast, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTDIR", "/tmp/mut")
SRC = "ros_bt_py/ros_bt_py/"
TIMES = dict(C01=21, C02=15, C03=15, C04=26, C05=32, C06=9, C07=7, C08=29, C09=28, C10=6, C11=13, C12=4, C13=7, C14=21, C15=100, C16=98, C17=30, C18=55, C19=7, C20=60, C21=12, C22=50, C23=19, C24=20, C25=22, C26=72, C27=7,
             C28=60, C29=11, C30=92, C31=50, C32=117, C33=92, C34=10, C35=24, C36=77)
LOG = re.compile(r"^(self\.log|self\.get_logger|rclpy\.logging|self\.logging_manager)")


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def rep(n, new, kind, fn):
        s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        if b[s:e].decode() != new:
            out.append((fn, n.lineno, kind, b[s:e].decode(), new, s, e))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__repr__", "__str__"):
                return
            fn = (fn + "." if fn else "") + n.name
        if fn and isinstance(n, ast.stmt):
            t = seg(src, n)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not LOG.match(t):
                rep(n, "pass", "drop call", fn)
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or LOG.match(t)):
                return
            if isinstance(n, ast.Assign) and "." in fn and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr not in ("error_message",):
                rep(n, "pass", "drop assign", fn)
            if isinstance(n, ast.Continue):
                rep(n, "break", "continue->break", fn)
            if isinstance(n, ast.Break):
                rep(n, "pass", "drop break", fn)
            if isinstance(n, ast.Return) and t.startswith("return Err"):
                rep(n, "pass", "drop return Err", fn)
            if isinstance(n, ast.If):
                rep(n.test, "not (%s)" % seg(src, n.test), "negate", fn)
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, ast.Attribute) and (n.targets[0] if isinstance(n, ast.Assign) else n.target).attr == "error_message":
                return
        if fn and isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [seg(src, v) for k, v in enumerate(n.values) if k != i]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % r for r in rest) + ")", "drop operand", fn)
        if fn and isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[type(n.ops[0])]
            rep(n, "(%s %s %s)" % (seg(src, n.left), sw, seg(src, n.comparators[0])), "compare", fn)
            c = n.comparators[0]
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, (ast.List, ast.Tuple)) and len(c.elts) > 1:
                for i in range(len(c.elts)):
                    rep(c, "[" + ", ".join(seg(src, v) for k, v in enumerate(c.elts) if k != i) + "]", "drop element", fn)
        if fn and isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "flip", fn)
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "+1", fn)
        if fn and isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(%s)" % seg(src, n.operand), "drop not", fn)
        if fn and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("BTNodeState", "TreeState") and isinstance(n.ctx, ast.Load):
            alt = {"SUCCEEDED": "FAILED", "FAILED": "SUCCEEDED", "RUNNING": "FAILED", "IDLE": "PAUSED", "PAUSED": "IDLE", "BROKEN": "SHUTDOWN", "EDITABLE": "IDLE", "TICKING": "WAITING_FOR_TICK", "ERROR": "IDLE"}.get(n.attr)
            if alt:
                rep(n, n.value.id + "." + alt, "state", fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and (c in n.decorator_list or c is n.returns or c is n.args):
                continue
            if isinstance(n, ast.Call) and LOG.match(seg(src, n) or ""):
                return
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            visit(c, fn)
    visit(tree, "")
    return src, out


def main():
    mode, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    props = {}
    for l in open(ROOT + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            if f.endswith(".py"):
                props.setdefault(f.removeprefix(SRC), []).append(d["id"])
    repo = W + "/repo"
    if mode == "run":
        os.makedirs(W, exist_ok=True)
        subprocess.run(["rm", "-rf", W + "/repo"])
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    base = "/repo/" + SRC
    allm = []
    for f in files or sorted(props):
        if os.path.exists(base + f):
            src, ms = mutants(base + f)
            allm += [(f, m) for m in ms]
    rnd = random.Random(seed)
    rnd.shuffle(allm)
    print(len(allm), "mutants")
    cap, left = int(os.environ.get("MUTCAP", "1000")), n
    count = {}
    for f, m in allm:
        count[f] = count.get(f, 0) + 1
        if count[f] > cap:
            continue
        left -= 1
        if left < 0:
            break
        fn, line, kind, old, new, s, e = m
        checks = sorted(props[f], key=lambda c: TIMES.get(c, 30))
        if mode == "list":
            print(f, fn, line, kind, "|", old[:60].replace("\n", " "), "->", new[:60].replace("\n", " "), checks)
            continue
        src = open(base + f).read().encode()
        new_src = (src[:s] + new.encode() + src[e:]).decode()
        try:
            compile(new_src, f, "exec")
        except SyntaxError:
            continue
        open(repo + "/" + SRC + f, "w").write(new_src)
        res, by, t0 = "survived", [], time.time()
        for c in checks:
            try:
                p = subprocess.run([sys.executable, "-m", "vf.run", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_FAILFAST="1", VERIF_BUDGET="240"), capture_output=True, text=True, timeout=400)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            by.append((c, rc))
            if rc == 1:
                res = "killed"
                break
        open(repo + "/" + SRC + f, "wb").write(src)
        r = dict(file=f, fn=fn, line=line, kind=kind, old=old, new=new, result=res, by=by, t=round(time.time() - t0))
        with open(W + "/log.jsonl", "a") as g:
            g.write(json.dumps(r) + "\n")
        print(res, f, fn, line, kind, "|", old[:50].replace("\n", " "), "->", new[:50].replace("\n", " "), by, r["t"], flush=True)


main()
