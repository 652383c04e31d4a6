"""Listings: folders and packages, message types, node classes, channels."""
import contextlib
import json
import os
import shutil
import sys
import tempfile
import types

from harness.edit import *
from harness.edit import _Base
import rclpy.action
import ros_bt_py.data_types as dt
from ros_bt_py import package_manager, ros_helpers
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces.srv import GetFolderStructure, GetPackageStructure, GetStorageFolders, GetAvailableNodes

ASSUMPTIONS = ["names of files are fixed; what a folder contains changes only between two listings"]
NOBODY = 65534
LIMIT = 3000


class Pub:
    def __init__(self, count=lambda: 1):
        self.got, self.count = [], count

    def publish(self, m):
        self.got.append(m)

    def get_subscription_count(self):
        return self.count()


@contextlib.contextmanager
def scratch():
    """A directory of our own, used as nobody."""
    top = tempfile.mkdtemp(prefix="vf-c34-")
    root = os.geteuid() == 0
    if root:
        os.chown(top, NOBODY, NOBODY)
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
    try:
        yield top
    finally:
        if root:
            os.seteuid(0)
            os.setegid(0)
        shutil.rmtree(top, ignore_errors=True)


# entries: name -> None (file), dict (folder), "->x" (link), "no" (unreadable folder)
def make_dir(path, tree):
    os.mkdir(path)
    for n, c in tree.items():
        p = os.path.join(path, n)
        if c is None:
            with open(p, "w") as f:
                f.write("x")
        elif c == "no":
            os.mkdir(p)
            with open(p + "/inside", "w") as f:
                f.write("x")
            os.chmod(p, 0)
        elif isinstance(c, str):
            os.symlink(c[2:], p)
        else:
            make_dir(p, c)


def expected(tree, hidden, above):
    """{name: (type, children)} of what is shown; above: the folders above, innermost last"""
    out = {}
    for n, c in tree.items():
        if n.startswith(".") and not hidden:
            continue
        if c is None:
            out[n] = ("file", None)
        elif c == "no":
            out[n] = ("readonly_directory", {})
        elif c == "->.":
            out[n] = ("directory", {})
        elif c == "->..":
            out[n] = ("directory", {})
        elif c == "->nowhere":
            out[n] = ("file", None)
        elif isinstance(c, str):
            out[n] = ("directory", expected(tree[c[2:]], hidden, above + [tree]))
        else:
            out[n] = ("directory", expected(c, hidden, above + [tree]))
    return out


def compare(ctx, d, name, exp, parent, ids):
    ctx.check(d["name"] == name, "items have the names of the files and folders")
    ctx.check(d["parent"] == parent, "items name the item they are in")
    ctx.check(d["item_id"] not in ids and d["item_id"] != 0, "no two items have the same id")
    ids.add(d["item_id"])
    ctx.check(d["type"] == exp[0], "items have the type of the file or folder")
    if exp[1] is None:
        ctx.check(not d.get("children"), "files contain nothing")
        return
    ctx.check(sorted(c["name"] for c in d["children"]) == sorted(exp[1]), "folders contain exactly the visible files and folders")
    for c in d["children"]:
        compare(ctx, c, c["name"], exp[1][c["name"]], d["item_id"], ids)


def size(t):
    return 1 + sum(size(c) for c in t.values() if isinstance(c, dict)) + sum(1 for c in t.values() if not isinstance(c, dict))


class Bound(Exception):
    pass


@contextlib.contextmanager
def during(f):
    """Call f with the number of the access whenever a folder is looked into."""
    old = os.listdir, os.scandir
    n = [0]

    def wrap(g):
        def h(*a, **k):
            n[0] += 1
            f(n[0])
            return g(*a, **k)
        return h
    os.listdir, os.scandir = wrap(old[0]), wrap(old[1])
    try:
        yield n
    finally:
        os.listdir, os.scandir = old


def ask(pm, kind, path, hidden):
    if kind == "package":
        stubs.world().packages = {"pkg": path}
        r = pm.get_installed_package_structure(GetPackageStructure.Request(package="pkg", show_hidden=hidden), GetPackageStructure.Response())
        return r, r.package_structure
    r = pm.get_folder_structure(GetFolderStructure.Request(storage_folder=path, show_hidden=hidden), GetFolderStructure.Response())
    return r, r.storage_folder_structure


def contents(ctx, tag, opts):
    return {n: c for n, c in opts.items() if ctx.bool(tag + n)}


def folders(ctx, kind, links):
    """A listing shows exactly what is in the folder."""
    sub = contents(ctx, "s", {"g": None, ".g": None, "e": {}, "up": "->..", "dead": "->nowhere"} if links else {"g": None, ".g": None, "e": {"x": None}, "z": "no"})
    tree = {"d": sub}
    if links:
        tree.update(contents(ctx, "t", {"l": "->d", "me": "->.", "me2": "->."}))
    else:
        tree.update(contents(ctx, "t", {"f": None, ".h": None, ".d": {"y": None, ".y": None}}))
    hidden = ctx.bool("hidden")

    def look(n):
        if n > LIMIT:
            raise Bound("the listing doesn't end")
    with scratch() as top:
        path = os.path.join(top, "root")
        make_dir(path, tree)
        pm = PackageManager(tree_storage_directory_paths=[path])
        with during(look):
            for again in range(2):
                try:
                    r, text = ask(pm, kind, path, hidden)
                except Bound:
                    ctx.fail("listing a folder comes to an end")
                ctx.check(r.success, "folders can be listed")
                ids = set()
                compare(ctx, json.loads(text), "root", ("directory", expected(tree, hidden, [])), 0, ids)
        for p in ("d/z",):
            if os.path.isdir(os.path.join(path, p)):
                os.chmod(os.path.join(path, p), 0o700)
    ctx.reach("listed")


def together(ctx, kinds):
    """Listings made at the same time don't disturb each other."""
    tree = {"d": {"g": None, ".g": None, "e": {"x": None}}, "f": None}
    other = {"a": {"b": {}, "c": None}, ".k": None}
    at = ctx.pick("at", [1, 2, 3])
    h1, h2 = ctx.bool("hidden"), ctx.bool("hidden2")
    with scratch() as top:
        p, q = os.path.join(top, "root"), os.path.join(top, "other")
        make_dir(p, tree)
        make_dir(q, other)
        pm = PackageManager(tree_storage_directory_paths=[p, q])
        inner = []

        def look(n):
            if n == at and not inner:
                inner.append(None)
                inner[0] = ask(pm, kinds[1], q, h2)
        with during(look):
            r, text = ask(pm, kinds[0], p, h1)
        ctx.check(r.success, "folders can be listed")
        compare(ctx, json.loads(text), "root", ("directory", expected(tree, h1, [])), 0, set())
        if inner:
            ctx.check(inner[0][0].success, "folders can be listed")
            compare(ctx, json.loads(inner[0][1]), "other", ("directory", expected(other, h2, [])), 0, set())


def refused(ctx):
    """Only storage folders and packages can be listed."""
    with scratch() as top:
        path = os.path.join(top, "root")
        make_dir(path, {"d": {"f": None}})
        if ctx.pick("env", [False, True]):
            os.environ["VF_C34"] = top
            pm = PackageManager(tree_storage_directory_paths=["$VF_C34/root/"])
        else:
            pm = PackageManager(tree_storage_directory_paths=[path])
        fs = pm.get_storage_folders(GetStorageFolders.Request(), GetStorageFolders.Response()).storage_folders
        ctx.check(list(fs) == [path], "the storage folders are the configured ones, with variables filled in")
        r, text = ask(pm, "folder", fs[0], False)
        ctx.check(r.success and json.loads(text)["name"] == "root", "folders can be listed")
        for bad in (top, path + "/d", path + "/..", path + "2", "", "/", "root"):
            r, text = ask(pm, "folder", bad, ctx.bool("hidden" + str(len(bad)) + bad[-1:]))
            ctx.check(not r.success and len(r.error_message) > 0 and not text, "folders that aren't storage folders aren't listed")
        stubs.world().packages = {"pkg": path}
        name = ctx.str("pkg", 3, "pkg")
        r = pm.get_installed_package_structure(GetPackageStructure.Request(package=name), GetPackageStructure.Response())
        ctx.check(sym_implies(name == "pkg", r.success), "packages can be listed")
        ctx.check(sym_implies(name != "pkg", sym_and(not r.success, len(r.error_message) > 0, not r.package_structure)), "unknown packages are reported")
        ctx.reach("refused")


def packages(ctx, n):
    """Installed packages outside of /opt/ros are listed; lists are repeated for whoever listens."""
    ps = {}
    for i in range(ctx.pick("n", range(n + 1))):
        ps["p%d" % i] = ctx.str("prefix%d" % i, 11, "/optrswx")
    stubs.world().packages = ps
    counts = [0, 0]
    msgs, pkgs = Pub(lambda: counts[0]), Pub(lambda: counts[1])
    have = ctx.pick("have", ["both", "messages", "packages", "none"])
    pm = PackageManager(tree_storage_directory_paths=[], publish_message_list_callback=msgs if have in ("both", "messages") else None,
                        publish_packages_list_callback=pkgs if have in ("both", "packages") else None)
    want = [[], []]
    for i in range(3):
        op = ctx.pick("op%d" % i, ["packages", "messages", "repeat"]) if i < 2 else "repeat"
        if op == "packages":
            pm.publish_packages_list()
            if have in ("both", "packages"):
                want[1].append(1)
                listed = {x.package: x.path for x in pkgs.got[-1].packages}
                ctx.check(len(listed) == len(pkgs.got[-1].packages), "no package is listed twice")
                for p, prefix in ps.items():
                    ros = prefix.startswith("/opt/ros")
                    ctx.check(sym_implies(ros, p not in listed), "packages of the ROS installation aren't listed")
                    ctx.check(sym_implies(sym_not(ros), p in listed), "all other packages are listed")
                ctx.check(all(p in ps for p in listed), "only packages are listed")
                ctx.check(sym_and(*[x == ps[p] for p, x in listed.items()]), "packages are listed with where they are")
                ctx.reach("packages")
        elif op == "messages":
            pm.publish_message_list()
            if have in ("both", "messages"):
                want[0].append(1)
        else:
            counts[:] = [ctx.int("m%d" % i, 0, 3), ctx.int("p%d" % i, 0, 3)]
            pm.republish_lists()
            for k, pub in enumerate((msgs, pkgs)):
                if want[k] and counts[k] > 0:
                    want[k].append(1)
                    ctx.check(len(pub.got) == len(want[k]) and pub.got[-1] == pub.got[-2], "lists are repeated for whoever listens")
                    ctx.reach("repeated")
        ctx.check(len(msgs.got) == len(want[0]) and len(pkgs.got) == len(want[1]), "lists are published when asked for, and repeated only if published before and somebody listens")


def messages(ctx):
    """The list of message types has all of them, with their fields."""
    pub = Pub()
    pm = PackageManager(tree_storage_directory_paths=[], publish_message_list_callback=pub)
    pm.publish_message_list()
    ctx.check(len(pub.got) == 1, "the list of message types is published")
    m = pub.got[0]
    classes = [(p, k, n) for (p, k, n) in stubs.CLASSES if "_" not in n]
    for k, got in (("msg", [x.name for x in m.topics]), ("srv", list(m.services)), ("action", list(m.actions))):
        ctx.check(sorted(got) == sorted("/".join(c) for c in classes if c[1] == k), "every message, service and action type is listed once")
        ctx.reach(k)
    i = ctx.pick("i", range(len(m.topics)))
    x = m.topics[i]
    c = stubs.CLASSES[tuple(x.name.split("/"))]
    ctx.check(sorted(f.key for f in x.fields) == sorted(c.get_fields_and_field_types()), "message types are listed with their fields")
    for f in x.fields:
        d = dt.get_message_field_io_type(c.get_fields_and_field_types()[f.key])
        ctx.check(d.is_ok() and d.unwrap().serialize_type() == f.type, "fields are listed with their types")


BAD = {"missing": None, "syntax": "def (:\n", "raises": "raise RuntimeError('no')\n", "import": "import vf_no_such_module\n", "attr": "import os\nos.nothing\n", "value": "raise ValueError('no')\n", "key": "{}[1]\n"}


def nodes(ctx, what):
    """The list of node classes has exactly the registered ones."""
    from ros_bt_py.node import Node
    saved = {k: dict(v) for k, v in Node.node_classes.items()}
    mod = types.ModuleType("vf_c34_mod")
    hooks = []
    try:
        mc = ctx.pick("max", [None, 0, 1])
        low, default = ctx.int("low", -9, 9), ctx.str("default", 2)
        tags = [ctx.str("tag", 2)]
        doc = ctx.pick("doc", [None, "", "Does it.\n\n    More text."])

        a = IntType(allow_dynamic=False, is_static=True, min_value=low)
        if what == "while":
            orig = a.serialize_type

            def hooked():
                for h in hooks:
                    h()
                return orig()
            a.serialize_type = hooked
        cfg = NodeConfig(inputs={"a": a, "b": StringType(value=default) if what == "defaults" else StringType()},
                         outputs={"x": IntType(), "y": StringType()}, max_children=mc, tags=tags)
        body = {k: v for k, v in _Base.__dict__.items() if k.startswith("_do")}
        body.update(__doc__=doc, __module__=mod.__name__)
        base = Leaf if mc == 0 else Decorator if mc == 1 else FlowControl
        A = define_bt_node(cfg)(type("A", (base,), body))
        new = {}
        if what == "while":
            def add():
                # another service loads a module
                if not new:
                    new["n"] = 1
                    where = ctx.pick("where", ["same", "other"])
                    b2 = dict(body, __module__=mod.__name__ if where == "same" else "vf_c34_other")
                    new["cls"] = define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))(type("B", (Leaf,), b2))
            hooks.append(add)
        if what == "bad":
            with scratch() as top:
                kind = ctx.pick("kind", list(BAD))
                name = "vf_c34_bad_%s" % kind
                if BAD[kind] is not None:
                    with open(os.path.join(top, name + ".py"), "w") as f:
                        f.write(BAD[kind])
                sys.path.insert(0, top)
                sys.modules.pop(name, None)
                import importlib
                importlib.invalidate_caches()
                try:
                    if ctx.pick("via", ["list", "add"]) == "add":
                        m = manager()
                        r = m.add_node(AddNode.Request(parent_node_id=NIL, node=NodeStructure(module=name, node_class="X", name="n", max_children=-1)), AddNode.Response())
                        ctx.check(not m.nodes, "a node of a module that can't be loaded isn't added")
                    else:
                        mods = ctx.pick("mods", [[name], ["", name], [mod.__name__, name]])
                        sys.modules[mod.__name__] = mod
                        r = PackageManager.get_available_nodes(GetAvailableNodes.Request(node_modules=mods), GetAvailableNodes.Response())
                    ctx.check(not r.success and len(r.error_message) > 0, "modules that can't be loaded are reported")
                    ctx.reach("reported")
                finally:
                    sys.path.remove(top)
                    sys.modules.pop(name, None)
            return
        sys.modules[mod.__name__] = mod
        r = PackageManager.get_available_nodes(GetAvailableNodes.Request(node_modules=ctx.pick("mods", [[], [""], [mod.__name__]])), GetAvailableNodes.Response())
        del hooks[:]
        ctx.check(r.success, "the node classes can be listed")
        got = [(x.module, x.node_class) for x in r.available_nodes]
        have = {(m, n) for m, v in Node.node_classes.items() for n, c in v.items() if c._node_config}
        before = have - ({(new["cls"].__module__, "B")} if new else set())
        ctx.check(len(set(got)) == len(got) and before <= set(got) <= have, "exactly the known node classes are listed, each once")
        x = [x for x in r.available_nodes if (x.module, x.node_class) == (mod.__name__, "A")][0]
        ctx.check(x.max_children == (-1 if mc is None else mc), "node classes are listed with the number of children they support")
        ctx.check(list(x.tags) == tags, "node classes are listed with their tags")
        if doc:
            ctx.check(x.doc == "Does it.\n\nMore text.", "node classes are listed with their documentation")
        ctx.check([i.key for i in x.inputs] == ["a", "b"] and [i.key for i in x.outputs] == ["x", "y"], "node classes are listed with their inputs and outputs")
        ctx.check(all(sym_deep_eq(i.type, cfg.inputs[i.key].serialize_type()) for i in x.inputs) and all(sym_deep_eq(i.type, cfg.outputs[i.key].serialize_type()) for i in x.outputs),
                  "inputs and outputs are listed with their types")
        # a node added as it is listed is as its class describes it
        m = manager()
        r = m.add_node(AddNode.Request(parent_node_id=NIL, node=NodeStructure(module=x.module, node_class=x.node_class, name="n", inputs=x.inputs, outputs=x.outputs, max_children=x.max_children)), AddNode.Response())
        ctx.check(r.success, "listed nodes can be added to a tree")
        n = list(m.nodes.values())[0]
        ctx.check(type(n) is A and n.node_config.max_children == mc, "listed nodes can be added to a tree")
        ctx.check(list(n.node_config.inputs) == ["a", "b"] and list(n.node_config.outputs) == ["x", "y"], "an added node has the listed inputs and outputs")
        if what == "defaults":
            ctx.check(cur(n.node_config.inputs["b"]) == default, "an added node has the listed default values")
        ctx.reach("listed")
    finally:
        Node.node_classes.clear()
        Node.node_classes.update(saved)
        sys.modules.pop(mod.__name__, None)


def channels(ctx, n):
    """The published channels are the topics, services and actions there are."""
    there = {}
    for k in ("topics", "services", "actions"):
        there[k] = [(ctx.str("%s%d" % (k, i), 3), [ctx.str("%st%d.%d" % (k, i, j), 2) for j in range(ctx.pick("%sn%d" % (k, i), [1, 2]))]) for i in range(ctx.pick("n" + k, range(n + 1)))]
    node = rclpy.node.Node("n")
    node.get_topic_names_and_types = lambda *a, **k: there["topics"]
    node.get_service_names_and_types = lambda *a, **k: there["services"]
    pub = Pub()
    old = rclpy.action.get_action_names_and_types
    rclpy.action.get_action_names_and_types = lambda nd, *a, **k: there["actions"]
    try:
        ros_helpers.publish_message_channels(node, pub)
    finally:
        rclpy.action.get_action_names_and_types = old
    ctx.check(len(pub.got) == 1, "the channels are published")
    for k, v in there.items():
        g = getattr(pub.got[0], k)
        ctx.check(len(g) == len(v), "every " + k[:-1] + " is published once")
        ctx.check(sym_and(*[sym_and(a.name == b[0], a.type == b[1][0]) for a, b in zip(g, v)]), k + " are published with their names and types")
    ctx.reach("published")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for k in ("folder", "package"):
        for links in (False, True):
            hs.append(H("folders/%s%s" % (k, "-links" if links else ""), folders, dict(kind=k, links=links), "any contents of a folder with up to %s in two levels, listed twice" % ("9 files, folders and links to folders above" if links else "9 files, folders and unreadable folders"), reach=("listed",)))
    for a in ("folder", "package"):
        for b in ("folder", "package"):
            hs.append(H("together/%s-%s" % (a, b), together, dict(kinds=(a, b)), "two listings, one made at any step of the other"))
    hs.append(H("refused", refused, {}, "8 folders, package names of up to 3 characters", reach=("refused",)))
    hs.append(H("packages", packages, dict(n=3 if t else 2), "up to %d packages, prefixes of up to 11 characters, two requests and a repetition, any numbers of listeners" % (3 if t else 2), reach=("packages", "repeated")))
    hs.append(H("messages", messages, {}, "all message types of the model", reach=("msg", "srv", "action")))
    for w in ("plain", "defaults", "while"):
        hs.append(H("nodes/" + w, nodes, dict(what=w), "all node classes and one with any limit, default, tag, documentation and number of children", reach=("listed",)))
    hs.append(H("nodes/bad", nodes, dict(what="bad"), "7 kinds of modules that can't be loaded", reach=("reported",)))
    hs.append(H("channels", channels, dict(n=3 if t else 2), "up to %d topics, services and actions with one or two types" % (3 if t else 2), reach=("published",)))
    return hs
