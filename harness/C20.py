"""Saving and loading tree files.  Runs as an unprivileged user on files of a scratch directory, so that a path
that escapes the storage folder can reach nothing else."""
import contextlib
import io as _io
import os
import resource
import shutil
import signal

from harness.edit import *
from ros_bt_py import package_manager, tree_exec_manager
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces.srv import SaveTree, MigrateTree, GetFolderStructure

NOBODY = 65534


@contextlib.contextmanager
def scratch():
    """A directory of our own (a/b/c/store inside of it is the storage folder); left as root, used as nobody."""
    top = "/tmp/vf-c20-%d" % os.getpid()
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    root = os.geteuid() == 0
    if root:
        os.chown(top, NOBODY, NOBODY)
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
    try:
        os.makedirs(top + "/a/b/c/store/sub")
        os.makedirs(top + "/a/b/c/store2")
        yield top
    finally:
        if root:
            os.seteuid(0)
            os.setegid(0)
        shutil.rmtree(top, ignore_errors=True)


def files(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            with _io.open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), top)] = h.read()
    return out


def put(top, rel, text):
    with _io.open(os.path.join(top, rel), "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


ST = "a/b/c/store"
OLD = "old content"


def tree_msg(n=2):
    t = structure(("F", "D", "L")[:n + 1], [-1, 0, 1][:n + 1], [(0, "x", 1, "p")] if n else [], {0: 3})
    t.path = "file:///was/here.yaml"
    return t


@contextlib.contextmanager
def full_disk(size):
    """Files can't grow beyond size bytes, as if the disk were full then."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def killed_at(size, f):
    """Runs f in a process of its own, which is killed when a file grows beyond size bytes; whether it survived."""
    pid = os.fork()
    if not pid:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            f()
        finally:
            os._exit(0)
    return not os.WIFSIGNALED(os.waitpid(pid, 0)[1])


def save(ctx, first, depth):
    """Any path, any flags: what is saved is saved inside of the storage folder, nothing else changes."""
    with scratch() as top:
        store = os.path.join(top, ST)
        pm = PackageManager([store, os.path.join(top, "a/b/c/gone")])
        put(top, ST + "/x.yaml", OLD)
        put(top, ST + "/sub/x.yaml", OLD)
        put(top, "a/b/c/x.yaml", OLD)
        put(top, "a/b/c/store2/x.yaml", OLD)
        many = ctx.pick("taken", [False, True])
        if many:
            put(top, ST + "/x_2.yaml", OLD)
            os.mkdir(store + "/x_3.yaml")
        segs = [first]
        for i in range(1, ctx.pick("depth", list(range(1, depth + 1)))):
            segs.append(ctx.pick("s%d" % i, ["..", "x.yaml", "new.yaml", "sub", "", ".", "store2", "store"]))
        path = "/".join(segs)
        if first == "<abs>":
            path = "/".join([ctx.pick("abs", [top + "/a/b/c", store, store + "2"])] + segs[1:])
        sp = ctx.pick("storage", ["ok", "missing", "unknown", "slash"])
        overwrite, rename = ctx.bool("overwrite"), ctx.bool("rename")
        before = files(top)
        req = SaveTree.Request(storage_path={"ok": store, "missing": os.path.join(top, "a/b/c/gone"), "unknown": os.path.join(top, "a/b/c"), "slash": store + "/"}[sp],
                               filepath=path, tree=tree_msg(), allow_overwrite=overwrite, allow_rename=rename)
        r = pm.save_tree_to_path(req, SaveTree.Response())
        after = files(top)
        changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
        if not r.success:
            ctx.check(len(r.error_message) > 0, "a refused save says why")
            ctx.check(not changed, "a refused save changes no file")
            if sp == "ok" and path in ("new.yaml", "sub/new.yaml"):
                ctx.fail("a new file in the storage folder can be saved")
            if sp == "ok" and path in ("x.yaml", "sub/x.yaml"):
                ctx.check(sym_not(sym_or(overwrite, rename)), "an existing file can be replaced or saved under another name if asked for")
            ctx.reach("refused")
            return
        ctx.check(sp in ("ok", "missing"), "trees are saved in storage folders only")
        inside = os.path.relpath(req.storage_path, top)
        ctx.check(all(f.startswith(inside + "/") for f in changed), "a tree is saved inside of the storage folder")
        got = os.path.relpath(os.path.abspath(r.file_path), top)
        ctx.check(got in after and changed == {got}, "exactly the reported file is written")
        if got in before:
            ctx.check(overwrite, "no file is overwritten unless that was asked for")
            ctx.check(sym_not(rename), "no file is overwritten if it shall be renamed")
            ctx.reach("overwritten")
        want = os.path.relpath(os.path.normpath(os.path.join(req.storage_path, path)), top)
        if got != want:
            ctx.check(want in before and rename, "only existing files lead to another name")
            ctx.check(os.path.dirname(got) == os.path.dirname(want) and got.endswith(".yaml"), "a renamed file keeps folder and extension")
            ctx.reach("renamed")
        m = manager()
        l = m.load_tree_from_path(LoadTreeFromPath.Request(path="file://" + r.file_path), LoadTreeFromPath.Response())
        ctx.check(l.success and len(m.nodes) == 3, "a saved tree can be loaded")
        ctx.check("was/here" not in after[got].decode(), "the path is not saved")
        ctx.reach("saved")


def crash(ctx, sizes):
    """The disk is full, or the process ends, at any point of a save: the file that was there is unchanged, or the
    save was complete."""
    with scratch() as top:
        store = os.path.join(top, ST)
        pm = PackageManager([store])
        name = ctx.pick("name", ["x.yaml", "new.yaml", "sub/deep/new.yaml"])
        put(top, ST + "/x.yaml", OLD)
        size = ctx.pick("size", sizes)
        kill = ctx.pick("kill", [False, True])
        rename, overwrite = ctx.bool("rename"), ctx.bool("overwrite")
        ctx.assume(sym_or(rename, overwrite))
        before = files(top)

        def run():
            req = SaveTree.Request(storage_path=store, filepath=name, tree=tree_msg(), allow_overwrite=overwrite, allow_rename=rename)
            return pm.save_tree_to_path(req, SaveTree.Response())
        if kill:
            rename, overwrite = bool(rename), bool(overwrite)
            complete = killed_at(size, run)
        else:
            with full_disk(size):
                r = run()
            complete = r.success
            ctx.check(complete or len(r.error_message) > 0, "a failed save is reported")
        after = files(top)
        new = {f for f in after if f.endswith(".yaml") and after[f] != before.get(f)}
        if complete:
            ctx.check(len(new) == 1, "a save writes one tree")
            f = new.pop()
            ctx.check(f not in before or not rename, "no file is overwritten if it shall be renamed")
            m = manager()
            ctx.check(m.load_tree_from_path(LoadTreeFromPath.Request(path="file://" + os.path.join(top, f)), LoadTreeFromPath.Response()).success and len(m.nodes) == 3, "a saved tree can be loaded")
            ctx.reach("complete")
            return
        ctx.check(all(after.get(f) == before[f] for f in before), "a failed save keeps the files that were there")
        ctx.check(not new, "a failed save leaves no partial tree")
        ctx.reach("killed" if kill else "failed")


def again(ctx, saves):
    """Several saves under the same name with renaming: every one of them is kept."""
    with scratch() as top:
        store = os.path.join(top, ST)
        pm = PackageManager([store])
        name = ctx.pick("name", ["t.yaml", "t_9.yaml", "t", "sub/t_1.yaml", "t.tar.yaml", "t_.yaml", ".yaml"])
        kept = {}
        for i in range(saves):
            t = tree_msg(i % 3)
            t.name = "tree %d" % i
            r = pm.save_tree_to_path(SaveTree.Request(storage_path=store, filepath=name, tree=t, allow_rename=True, allow_overwrite=ctx.bool("o%d" % i)), SaveTree.Response())
            ctx.check(r.success, "a tree can be saved under another name")
            ctx.check(r.file_path not in kept, "no file is overwritten if it shall be renamed")
            kept[r.file_path] = t.name
        for f, nm in kept.items():
            m = manager()
            ctx.check(m.load_tree_from_path(LoadTreeFromPath.Request(path="file://" + f), LoadTreeFromPath.Response()).success, "a saved tree can be loaded")
            ctx.check(m.name == nm, "every saved tree is kept")
    ctx.reach("done")


GOOD = "version: 1.0.0\nname: t\ntick_frequency_hz: 10.0\nnodes:\n- {module: harness.edit, node_class: ELeaf, name: a, node_id: '00000000-0000-0000-0000-000000005000'}\n"
TEXTS = {"good": (GOOD, True), "good, two parts": ("---\n---\n" + GOOD, None), "empty": ("", False), "blank": ("\n\n", False), "null": ("~\n", False), "scalar": ("just text\n", False), "number": ("7\n", False),
         "list": ("- a\n- b\n", False), "two": (GOOD + "---\n" + GOOD, False), "no nodes": ("version: 1.0.0\nname: t\n", False), "empty nodes": ("version: 1.0.0\nnodes: []\n", False),
         "path only": ("version: 1.0.0\npath: file:///nowhere.yaml\n", False), "path to self": ("version: 1.0.0\npath: '%s'\n", False), "unknown field": (GOOD + "bogus: 1\n", False),
         "no version": (GOOD.replace("version: 1.0.0\n", ""), False), "old": (GOOD.replace("1.0.0", "0.9.0"), False), "bad version": (GOOD.replace("1.0.0", "x.y"), False),
         "version number": (GOOD.replace("1.0.0", "1.0"), None), "version list": (GOOD.replace("1.0.0", "[1]"), False), "version null": (GOOD.replace("1.0.0", "null"), False), "future": (GOOD.replace("1.0.0", "99.0.0"), None),
         "scanner": ("a: b: c\n", False), "parser": ("[1, 2\n", False), "tab": ("a:\n\t- b\n", False), "tag": ("!!python/object:os.system {}\n", False), "anchor": ("*nope\n", False), "control": ("a: \x01\n", False),
         "recursive": ("&a {version: 1.0.0, nodes: [*a]}\n", False), "latin1": (b"name: \xff\xfe\n", False), "nodes scalar": ("version: 1.0.0\nnodes: 3\n", False), "nodes of text": ("version: 1.0.0\nnodes: [a, b]\n", False),
         "node null": ("version: 1.0.0\nnodes: [~]\n", False), "frequency text": (GOOD.replace("10.0", "often"), False), "unknown class": (GOOD.replace("ELeaf", "Nope"), False), "unknown module": (GOOD.replace("harness.edit", "no.such"), False),
         "bad id": (GOOD.replace("00000000-0000-0000-0000-000000005000", "x"), False), "second document broken": (GOOD + "---\n[1, 2\n", False), "date": ("version: 2020-01-01\nnodes: []\n", False)}


def read(ctx, kind):
    """Whatever a file holds, loading it ends with a definite answer."""
    text, must = TEXTS[kind]
    with scratch() as top:
        p = os.path.join(top, "t.yaml")
        if kind == "path to self":
            text = text % ("file://" + p)
        put(top, "t.yaml", text)
        stubs.world().packages["pkg"] = top
        url = ctx.pick("url", ["file", "package", "tree"])
        m = manager()
        if ctx.pick("loaded before", [False, True]):
            ctx.check(m.load_tree(LoadTree.Request(tree=structure(("F", "L"), [-1, 0])), LoadTree.Response()).success, "a valid tree can be loaded")
        u = {"file": "file://" + p, "package": "package://pkg/t.yaml", "tree": "file://" + p}[url]
        try:
            if url == "tree":
                r = m.load_tree(LoadTree.Request(tree=TreeStructure(path=u)), LoadTree.Response())
            else:
                r = m.load_tree_from_path(LoadTreeFromPath.Request(path=u), LoadTreeFromPath.Response())
        except Exception as e:
            ctx.fail("loading a file answers (%s)" % type(e).__name__)
        ctx.check(must is None or r.success == must, "valid files are loaded, others are not")
        if r.success:
            ctx.check([n.name for n in m.nodes.values()] == ["a"] and m.name == "t", "the loaded tree is that of the file")
            ctx.check(m.structure_to_msg().path == u, "the tree knows where it was loaded from")
        else:
            ctx.check(len(r.error_message) > 0, "a file that can't be loaded is reported")
        ctx.check(m.state == TreeState.EDITABLE, "the tree stays editable")
        ctx.reach("done")


PATHS = ["", "file://", "package://", "http://x", "file:///nowhere/x.yaml", "package://nope/x.yaml", "package://nope", "package://pkg", "package://pkg/", "package://pkg/none.yaml", "package:///x", "t.yaml", "/t.yaml", "file://<top>", "file://<top>/t.yaml/x",
         "FILE://x", "file:/x", "package://pkg/../pkg/none.yaml"]


def where(ctx):
    """Paths that lead to no tree are reported."""
    with scratch() as top:
        stubs.world().packages["pkg"] = top
        put(top, "t.yaml", GOOD)
        p = ctx.pick("path", PATHS).replace("<top>", top)
        m = manager()
        try:
            r = m.load_tree_from_path(LoadTreeFromPath.Request(path=p), LoadTreeFromPath.Response())
        except Exception as e:
            ctx.fail("loading a path answers (%s)" % type(e).__name__)
        ctx.check(not r.success and len(r.error_message) > 0, "paths that lead to no tree are reported")
        ctx.check(m.state == TreeState.EDITABLE, "the tree stays editable")
        ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    d = 5 if t else 4
    for f in ["..", "x.yaml", "new.yaml", "sub", "", ".", "<abs>"]:
        hs.append(H("save/" + {"": "empty", "..": "up", ".": "here", "<abs>": "absolute"}.get(f, f), save, dict(first=f, depth=d if f in ("..", "sub") else d - 1 if f != "<abs>" else 3), "paths of up to %d segments of 8, all flags and storage folders" % d, reach=("refused",) + (("saved",) if f != "" else ()), max_paths=300000, samples=3))
    hs.append(H("crash", crash, dict(sizes=sorted({0, 1, 15, 16, 100, 10 ** 6} | (set(range(0, 4000, 97)) if t else {1000, 2000}))), "the disk is full or the process killed when a file reaches a size of up to 4000 bytes", reach=("complete", "failed", "killed")))
    hs.append(H("again", again, dict(saves=4 if t else 3), "%d saves" % (4 if t else 3), reach=("done",)))
    for k in TEXTS:
        hs.append(H("read/" + k.replace(" ", "-").replace(",", ""), read, dict(kind=k), "one malformed or valid file, read in 3 ways", reach=("done",)))
    hs.append(H("where", where, {}, "%d paths" % len(PATHS), reach=("done",)))
    return hs
