"""The tree node: what its services, topics and timers do, and the tree it loads at startup."""
import copy
import json
import os
import shutil
import sys
import tempfile
import types

from harness.edit import *
from harness.C17 import every, ALL as EDITS
from harness.C18 import CRoot, CMDS, DECIDE, LOG, TS, C, alive, decider  # noqa: F401
from ros_bt_py_interfaces.msg import (BTLogMessage, MessageChannels, MessageTypes, Packages, TreeDataList, TreeStateList, TreeStructureList)
from ros_bt_py_interfaces.srv import (GenerateSubtree, GetAvailableNodes, GetFolderStructure, GetPackageStructure, GetStorageFolders, GetSubtree, SaveTree, SetLogLevel)
from diagnostic_msgs.msg import DiagnosticArray, DiagnosticStatus
from std_msgs.msg import Float64
from std_srvs.srv import SetBool
import rosidl_runtime_py


class Params:
    """what generate_parameter_library makes of config/tree_node_parameters.yaml"""

    def __init__(self, **kw):
        self.node_modules = ["ros_bt_py.nodes.sequence"]
        self.tree_storage_paths = ["/nowhere"]
        self.show_traceback_on_exception = False
        self.diagnostics_frequency_hz = 1.0
        self.default_tree = types.SimpleNamespace(load_default_tree=False, load_default_tree_permissive=False, tick_frequency_hz=10.0, tree_path="", control_command=2)
        for k, v in kw.items():
            if hasattr(self.default_tree, k):
                setattr(self.default_tree, k, v)
            else:
                setattr(self, k, v)


if "ros_bt_py.parameters" not in sys.modules:
    _p = types.ModuleType("ros_bt_py.parameters")
    _p.tree_node_parameters = types.SimpleNamespace(Params=Params, ParamListener=lambda n: types.SimpleNamespace(get_params=Params))
    sys.modules["ros_bt_py.parameters"] = _p
from ros_bt_py.tree_node import TreeNode  # noqa: E402
from ros_bt_py.logging_manager import LoggingManager  # noqa: E402

ASSUMPTIONS = ["parameters are as their description demands (positive frequencies, commands 0 to 7)"]
MOD = __name__


class Net(TreeNode):
    """Records what is offered and published."""

    def __init__(self):
        self.services, self.timers, self.topics = {}, [], {}
        super().__init__(node_name="tree_node")

    def create_service(self, srv_type, srv_name, callback=None, **kw):
        self.services.setdefault(srv_name, []).append((srv_type, callback))
        return super().create_service(srv_type, srv_name, callback=callback, **kw)

    def create_timer(self, period, callback=None, **kw):
        self.timers.append((period, callback))
        return super().create_timer(period, callback, **kw)

    def create_publisher(self, msg_type, topic, *a, **kw):
        qos = a[0] if a else kw.pop("qos_profile", 10)
        kw.pop("qos_profile", None)
        t = self.topics[topic] = types.SimpleNamespace(type=msg_type, qos=qos, got=[])
        p = super().create_publisher(msg_type, topic, qos_profile=qos, **kw)
        p.publish = lambda m: t.got.append(copy.deepcopy(m))
        p.get_subscription_count = lambda: 1
        return p

    def ask(self, ctx, name, req, typ):
        ctx.check(len(self.services.get("~/" + name, [])) == 1, "the tree node offers ~/" + name)
        t, cb = self.services["~/" + name][0]
        ctx.check(t is typ, "~/%s has its type" % name)
        return cb(req, typ.Response())

    def last(self, name):
        return self.topics[name].got[-1]


def start(ctx, **kw):
    """as in main()"""
    LoggingManager._min_log_level = BTLogMessage.INFO
    p = Params(**kw)
    n = Net()
    n.init_publisher()
    old = rosidl_runtime_py.get_interface_packages
    rosidl_runtime_py.get_interface_packages = lambda *a, **k: {"std_msgs": []}    # a few messages are enough here
    try:
        n.init_package_manager(params=p)
    finally:
        rosidl_runtime_py.get_interface_packages = old
    n.init_tree_manager(params=p)
    n.load_default_tree(params=p)
    n.init_channels_publisher()
    return n


TOPICS = {"~/tree_structure_list": (TreeStructureList, True), "~/tree_state_list": (TreeStateList, True), "~/tree_data_list": (TreeDataList, True), "~/log_messages": (BTLogMessage, False),
          "~/debug/node_diagnostics": (DiagnosticStatus, None), "~/debug/tick_frequency": (Float64, False), "/diagnostics": (DiagnosticArray, False), "~/message_types": (MessageTypes, True),
          "~/packages": (Packages, True), "~/message_channels": (MessageChannels, None)}
SRV = {"add_node": AddNode, "add_node_at_index": AddNodeAtIndex, "remove_node": RemoveNode, "morph_node": MorphNode, "set_options": SetOptions, "move_node": MoveNode, "replace_node": ReplaceNode,
       "wire_data": WireNodeData, "unwire_data": WireNodeData, "clear": ClearTree, "load_tree": LoadTree, "load_tree_from_path": LoadTreeFromPath, "reload_tree": ReloadTree, "change_tree_name": ChangeTreeName}
NAME = {"reload_tree": "reload"}


def plain(s):
    """a snapshot without ids (added nodes get new ones)"""
    n = {i: x["name"] for i, x in s["nodes"].items()}
    return ({x["name"]: (x["class"], n.get(x["parent"]), [n[c] for c in x["children"]], x["state"], x["in"]) for x in s["nodes"].values()},
            sorted((n[a], ka, n[b], kb) for a, ka, b, kb in s["wirings"]), s["name"])


def told(ctx, n):
    """What was published last is the current tree."""
    m = n.tree_manager
    ctx.check([t.state for t in n.last("~/tree_state_list").tree_states] == [m.state], "the state is published on ~/tree_state_list")
    s = n.last("~/tree_structure_list").tree_structures
    ctx.check(len(s) == 1 and s[0].name == m.name and {str(x.node_id): (x.name, [str(c) for c in x.child_ids]) for x in s[0].nodes} == {str(i): (x.name, [str(c.node_id) for c in x.children]) for i, x in m.nodes.items()},
              "the tree is published on ~/tree_structure_list")
    for k, t in n.topics.items():
        ctx.check(k not in TOPICS or all(isinstance(g, TOPICS[k][0]) for g in t.got), "messages are published on the topic for their type")


def topics(ctx):
    """The topics there are, before anything happens."""
    n = start(ctx)
    for k, (t, keep) in TOPICS.items():
        ctx.check(k in n.topics and n.topics[k].type is t, "there is a topic " + k)
        if keep is not None:
            d = getattr(n.topics[k].qos, "durability", None)
            ctx.check(("TRANSIENT_LOCAL" in str(d)) == keep, "trees and lists, and nothing else, are kept for those who listen later")
    told(ctx, n)
    ctx.check(len(n.topics["~/message_types"].got) == 1 and len(n.topics["~/packages"].got) == 1, "trees and lists are published at startup")
    ctx.reach("topics")
    # timers
    f = ctx.pick("f", [0.5, 1.0, 4.0])
    n = start(ctx, diagnostics_frequency_hz=f)
    for t in ("/diagnostics", "~/message_channels", "~/message_types", "~/packages"):
        seen = []
        for period, cb in n.timers:
            k = len(n.topics[t].got)
            cb()
            if len(n.topics[t].got) > k:
                seen.append(period)
        ctx.check(len(seen) == 1, t + " is repeated")
        if t == "/diagnostics":
            ctx.check(seen[0] * f == 1, "diagnostics are published as often as configured")
    ctx.reach("timers")


def edits(ctx, op):
    """An edit through the node is the edit of the same name."""
    n = start(ctx)
    base = structure(("F", "D", "L"), [-1, 0, 1], [(0, "x", 1, "p")])
    ctx.check(n.ask(ctx, "load_tree", LoadTree.Request(tree=copy.deepcopy(base)), LoadTree).success, "a valid tree can be loaded")
    told(ctx, n)
    m = manager()
    m.load_tree(LoadTree.Request(tree=copy.deepcopy(base)), LoadTree.Response())
    if ctx.pick("run", [False, True]):
        call(m, "control_execution", C(command=C.TICK_ONCE))
        n.ask(ctx, "control_tree_execution", C(command=C.TICK_ONCE), ControlTreeExecution)
    name, req = every(op)
    if op == "set_options":
        req.inputs = [opt(str(ctx.pick("o", [0, 4])))]
    want = call(m, name, copy.deepcopy(req))
    got = n.ask(ctx, NAME.get(name, name), req, SRV[name])
    ctx.check(got.success == want.success, "a service of the node succeeds if the edit does")
    ctx.check(same(plain(snap(n.tree_manager)), plain(snap(m))), "a service of the node does what it is named after")
    told(ctx, n)
    ctx.reach("edited" if got.success else "refused")


def commands(ctx, steps, first):
    """Commands through the node are the commands."""
    n = start(ctx)
    t = TreeStructure(name="tree", nodes=[NodeStructure(module="harness.C18", node_class="CRoot", name="root", node_id=str(U(0)), child_ids=[], inputs=[], outputs=[], max_children=0)], tick_frequency_hz=10.0)
    m = manager()
    ctx.check(n.ask(ctx, "load_tree", LoadTree.Request(tree=copy.deepcopy(t)), LoadTree).success, "a valid tree can be loaded")
    m.load_tree(LoadTree.Request(tree=copy.deepcopy(t)), LoadTree.Response())
    made = []
    d = decider(ctx, "r", 1)

    def result(what):
        made.append(d(what))
        return made[-1]
    for s in range(steps):
        cmd = ctx.pick("c%d" % s, ["once", "stop", "reset", "shutdown", "setupshutdown", "none"]) if s else first
        del made[:], LOG[:]
        DECIDE[0] = result
        got = n.ask(ctx, "control_tree_execution", C(command=CMDS[cmd], tick_frequency_hz=10.0), ControlTreeExecution)
        did = list(LOG)
        del LOG[:]
        again = list(made)
        DECIDE[0] = lambda what: again.pop(0) if again else "err"
        want = call(m, "control_execution", C(command=CMDS[cmd], tick_frequency_hz=10.0))
        ctx.check(got.success == want.success and n.tree_manager.state == m.state and did == list(LOG), "~/control_tree_execution executes commands")
        told(ctx, n)
    ctx.reach("executed")


def others(ctx):
    """The remaining services."""
    d = tempfile.mkdtemp(prefix="vf-c35-")
    try:
        os.mkdir(d + "/sub")
        n = start(ctx, tree_storage_paths=[d])
        base = structure(("F", "D", "L"), [-1, 0, 1], [(0, "x", 1, "p")])
        ctx.check(n.ask(ctx, "load_tree", LoadTree.Request(tree=copy.deepcopy(base)), LoadTree).success, "a valid tree can be loaded")
        what = ctx.pick("what", ["subtree", "generate", "subtrees", "data", "collect", "level", "package", "folder", "folders", "save", "nodes"])
        ctx.reach(what)
        on = ctx.bool("on")
        if what == "subtree":
            r = n.ask(ctx, "get_subtree", GetSubtree.Request(root_id=str(U(1))), GetSubtree)
            ctx.check(r.success and sorted(x.name for x in r.subtree.nodes) == ["n1", "n2"], "~/get_subtree describes a part of the tree")
        elif what == "generate":
            r = n.ask(ctx, "generate_subtree", GenerateSubtree.Request(node_ids=[str(U(1)), str(U(2))]), GenerateSubtree)
            ctx.check(r.success and {"n1", "n2"} <= {x.name for x in r.tree.nodes}, "~/generate_subtree describes some nodes")
        elif what in ("subtrees", "data"):
            r = n.ask(ctx, "debug/set_publish_" + what, SetBool.Request(data=on), SetBool)
            ctx.check(r.success, "publishing can be switched")
            x = n.tree_manager.subtree_manager
            ctx.check((x.get_publish_subtrees() if what == "subtrees" else x.get_publish_data()) == on, "~/debug/set_publish_%s switches it" % what)
        elif what == "collect":
            ctx.check(n.ask(ctx, "debug/set_collect_node_diagnostics", SetBool.Request(data=on), SetBool).success, "collecting can be switched")
            n.ask(ctx, "control_tree_execution", C(command=C.SETUP_AND_SHUTDOWN), ControlTreeExecution)
            ctx.check((len(n.topics["~/debug/node_diagnostics"].got) > 0) == on, "~/debug/set_collect_node_diagnostics switches it")
        elif what == "level":
            low = ctx.int("low", 0, 60)
            n.ask(ctx, "set_log_level", SetLogLevel.Request(min_log_level=low), SetLogLevel)
            k = len(n.topics["~/log_messages"].got)
            n.tree_manager.nodes[U(0)].loginfo("text")
            ctx.check((len(n.topics["~/log_messages"].got) > k) == (low <= 20), "~/set_log_level sets the level of what is published on ~/log_messages")
        elif what == "package":
            stubs.world().packages = {"pkg": d}
            r = n.ask(ctx, "get_package_structure", GetPackageStructure.Request(package="pkg"), GetPackageStructure)
            ctx.check(r.success and [c["name"] for c in json.loads(r.package_structure)["children"]] == ["sub"], "~/get_package_structure lists a package")
        elif what == "folder":
            r = n.ask(ctx, "get_folder_structure", GetFolderStructure.Request(storage_folder=d), GetFolderStructure)
            ctx.check(r.success and [c["name"] for c in json.loads(r.storage_folder_structure)["children"]] == ["sub"], "~/get_folder_structure lists a folder")
        elif what == "folders":
            ctx.check(list(n.ask(ctx, "get_storage_folders", GetStorageFolders.Request(), GetStorageFolders).storage_folders) == [d], "~/get_storage_folders lists the storage folders")
        elif what == "save":
            r = n.ask(ctx, "save_tree", SaveTree.Request(storage_path=d, filepath="t.yaml", tree=copy.deepcopy(base)), SaveTree)
            ctx.check(r.success and os.listdir(d + "/sub") == [] and os.path.isfile(d + "/t.yaml"), "~/save_tree saves a tree")
            r = n.ask(ctx, "load_tree_from_path", LoadTreeFromPath.Request(path="file://" + d + "/t.yaml"), LoadTreeFromPath)
            ctx.check(r.success and sorted(x.name for x in n.tree_manager.nodes.values()) == ["n0", "n1", "n2"], "a saved tree can be loaded")
        else:
            r = n.ask(ctx, "get_available_nodes", GetAvailableNodes.Request(node_modules=["ros_bt_py.nodes.sequence"]), GetAvailableNodes)
            ctx.check(r.success and "Sequence" in [x.node_class for x in r.available_nodes], "~/get_available_nodes lists the node classes")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        LoggingManager._min_log_level = BTLogMessage.INFO


ROOT = NodeStructure(module="harness.C18", node_class="CRoot", name="root", node_id=str(U(0)), child_ids=[], inputs=[], outputs=[], max_children=0)


def default(ctx, kind):
    """The default tree is loaded and the configured command executed, as if asked for; nothing prevents the node from starting."""
    d = tempfile.mkdtemp(prefix="vf-c35-")
    try:
        uri = "file://%s/t.yaml" % d
        t = TreeStructure(name="the tree", nodes=[copy.deepcopy(ROOT)], tick_frequency_hz=20.0)
        text = "version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(t)
        if kind == "class":
            text = text.replace("CRoot", "NoSuchClass")
        elif kind == "broken":
            text = "version: 1.0.0\nnodes: [\n"
        elif kind == "empty":
            text = ""
        elif kind == "two":
            t.nodes = [copy.deepcopy(ROOT), copy.deepcopy(ROOT)]
            t.nodes[1].node_id, t.nodes[1].name = str(U(1)), "other"
            text = "version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(t)
        if kind != "missing":
            with open(d + "/t.yaml", "w") as f:
                f.write(text)
        if kind == "path":
            uri = ctx.pick("uri", ["", "/nowhere", "package://", "package://nope/x.yaml", "file://", "no uri"])
        load = ctx.bool("load")
        cmd = ctx.pick("cmd", range(8))
        freq = ctx.pick("freq", [1.0, 25.0])
        made = []
        dec = decider(ctx, "r", 1)

        def one(what):
            made.append(dec(what))
            return made[-1]
        # at startup
        with stubs.coop():
            del LOG[:]
            DECIDE[0] = one
            n = start(ctx, load_default_tree=load, load_default_tree_permissive=ctx.bool("permissive"), tree_path=uri, control_command=cmd, tick_frequency_hz=freq)
            ts = alive()
            if ts:
                ts[0].co.resume()
            did, st = list(LOG), n.tree_manager.state
            told(ctx, n)
        if not load:
            ctx.check(not n.tree_manager.nodes and not did and st == TS.EDITABLE, "no tree is loaded unless configured")
            ctx.reach("empty")
            return
        # by services
        with stubs.coop():
            del LOG[:]
            again = list(made)
            DECIDE[0] = lambda what: again.pop(0) if again else "err"
            m = manager()
            r = call(m, "load_tree_from_path", LoadTreeFromPath.Request(path=uri))
            if r.success:
                call(m, "control_execution", C(command=cmd, tick_frequency_hz=freq))
            more = [t for t in alive() if t not in ts]
            if more:
                more[0].co.resume()
        ctx.check(bool(ts) == bool(more), "the default tree is ticked if the command says so")
        ctx.check(did == list(LOG), "the configured command is executed for the default tree")
        ctx.check(st == m.state, "afterwards the tree is in the state the command leaves it in")
        if r.success:
            ctx.check(sorted(x.name for x in n.tree_manager.nodes.values()) == sorted(x.name for x in m.nodes.values()) and n.tree_manager.name == m.name, "the default tree is loaded")
            ctx.check(n.tree_manager.tick_frequency_hz == m.tick_frequency_hz, "the default tree is ticked with the configured frequency")
            if ts and cmd in (CMDS["periodic"], CMDS["until"]):
                ctx.check(n.tree_manager.tick_frequency_hz == freq, "the default tree is ticked with the configured frequency")
            ctx.reach("loaded")
        else:
            ctx.check(st == TS.EDITABLE and not did, "a default tree that can't be loaded isn't executed")
            ctx.reach("not loaded")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def modules(ctx):
    """Modules that can't be loaded don't prevent the start; the others are there."""
    from ros_bt_py.node import Node
    bad = {"none": [], "missing": ["no.such.module"], "empty": [""], "dot": ["."], "syntax": ["vf_c35_bad"]}
    d = tempfile.mkdtemp(prefix="vf-c35-")
    sys.path.insert(0, d)
    try:
        with open(d + "/vf_c35_bad.py", "w") as f:
            f.write("def (:\n")
        with open(d + "/vf_c35_good.py", "w") as f:
            f.write("from ros_bt_py.nodes.sequence import Sequence\nfrom ros_bt_py.node import define_bt_node\nfrom ros_bt_py.node_config import NodeConfig\n\n@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))\nclass VfGood(Sequence):\n    pass\n")
        import importlib
        importlib.invalidate_caches()
        k = ctx.pick("bad", list(bad))
        mods = bad[k] + ["vf_c35_good"] if ctx.pick("first", [True, False]) else ["vf_c35_good"] + bad[k]
        n = start(ctx, node_modules=mods)
        r = n.ask(ctx, "get_available_nodes", GetAvailableNodes.Request(), GetAvailableNodes)
        ctx.check(r.success and ("vf_c35_good", "VfGood") in [(x.module, x.node_class) for x in r.available_nodes], "the nodes of all configured modules are available")
        ctx.reach("started")
    finally:
        sys.path.remove(d)
        sys.modules.pop("vf_c35_good", None)
        Node.node_classes.pop("vf_c35_good", None)
        shutil.rmtree(d, ignore_errors=True)


def ending(ctx, steps):
    """shutdown() leaves nothing running."""
    n = start(ctx)
    t = TreeStructure(name="tree", nodes=[copy.deepcopy(ROOT)], tick_frequency_hz=10.0)
    ctx.check(n.ask(ctx, "load_tree", LoadTree.Request(tree=t), LoadTree).success, "a valid tree can be loaded")
    DECIDE[0] = decider(ctx, "r", 0)
    with stubs.coop():
        for s in range(steps):
            n.ask(ctx, "control_tree_execution", C(command=CMDS[ctx.pick("c%d" % s, ["once", "periodic", "until", "stop", "reset", "shutdown"])], tick_frequency_hz=10.0), ControlTreeExecution)
            if alive() and ctx.pick("ticks%d" % s, [True, False]):
                alive()[0].co.resume()
        n.shutdown()
        ctx.check(not alive() and n.tree_manager.state not in (TS.TICKING, TS.STOP_REQUESTED, TS.WAITING_FOR_TICK), "nothing runs after the shutdown of the node")
        ctx.check(n.tree_manager.nodes[U(0)].state is not S.RUNNING, "nothing runs after the shutdown of the node")
    ctx.reach("ended")


def harnesses(tier):
    t = tier == "thorough"
    hs = [H("topics", topics, {}, "all topics and timers", reach=("topics", "timers"))]
    for e in EDITS:
        hs.append(H("edit/" + e.replace(" ", "-"), edits, dict(op=e), "the service, before and after the tree ran", reach=("refused",) if e == "load_tree_from_path" else ("edited", "refused")))
    for c in ("once", "stop", "reset", "shutdown", "setupshutdown", "none"):
        hs.append(H("commands/" + c, commands, dict(steps=4 if t else 3, first=c), "%d commands, any results" % (4 if t else 3), reach=("executed",)))
    hs.append(H("others", others, {}, "the 11 other services", reach=("subtree", "save", "nodes", "level", "collect")))
    for k in ("good", "class", "broken", "empty", "two", "missing", "path"):
        hs.append(H("default/" + k, default, dict(kind=k), "every command, any results", reach=("empty", "loaded" if k in ("good", "two") else "not loaded")))
    hs.append(H("modules", modules, {}, "4 kinds of modules that can't be loaded", reach=("started",)))
    hs.append(H("ending", ending, dict(steps=3 if t else 2), "%d commands, any results" % (3 if t else 2), reach=("ended",)))
    return hs
