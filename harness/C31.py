"""What is published about the subtrees of a tree, after any history of edits, commands and settings."""
import copy

from harness import C28
from harness.C28 import *
from harness.C18 import TS
from std_srvs.srv import SetBool

MOD = __name__
ASSUMPTIONS = ["tree files don't change while a node uses them", "commands are single ticks, resets and shutdowns (periodic ticking is C19's)"]
C = ControlTreeExecution.Request


def nested(f):
    """c2 -> c"""
    return f.tree("n", [msg(Sequence, 1, "ns", (2, 3)), msg(Subtree, 2, "ninner", (), [path_io(f.uri("c"))]), msg(SAdd2, 3, "nl")], [(3, "w", 3, "v")])


@define_bt_node(NodeConfig(inputs={"v": I64(allow_static=False)}, outputs={"w": I64()}, max_children=0))
class SAdd2(SLeaf):
    """starts at 0"""

    def _do_setup(self):
        self.node_config.inputs["v"].set_value(0)
        return super()._do_setup()

    def _do_tick(self):
        r = C28.PLAN.result(self.name, "tick")
        self.outputs.set_value("w", cur(self.node_config.inputs["v"]) + 1)
        return r


def subs(nodes, out=None):
    """All subtrees, at any depth: (Subtree node, manager of its tree)."""
    out = [] if out is None else out
    for n in nodes.values():
        if isinstance(n, Subtree):
            out.append((n, n.manager))
            subs(n.manager.nodes, out)
    return out


class World:
    def __init__(self, ctx, f, ticks=RSF):
        self.ctx, self.f = ctx, f
        C28.PLAN = p = Plan(ctx, {"tick": ticks})
        p.log = []
        self.uris = {}
        f.tree("c", [msg(SLeaf, 9, "cl")])
        self.uris = {"c": f.uri("c"), "n": nested(f)}
        f.tree("w", [msg(Sequence, 1, "ws", (2, 3)), msg(SAdd2, 2, "wl"), msg(SAdd2, 3, "wm")], [(2, "w", 3, "v")])
        f.tree("d1", [msg(Sequence, 1, "ds", (2,)), msg(Subtree, 2, "dinner", (), [path_io(f.uri("w"))])])
        self.uris["d"] = f.tree("d", [msg(Subtree, 1, "dd", (), [path_io(f.uri("d1"))])])
        self.st, self.sta, self.da = [], [], []
        self.m = manager(publish_tree_structure_callback=lambda x: self.st.append(copy.deepcopy(x)), publish_tree_state_callback=lambda x: self.sta.append(copy.deepcopy(x)),
                         publish_tree_data_callback=lambda x: self.da.append(copy.deepcopy(x)))
        self.on, self.data, self.sta_n = True, False, 0

    def load(self, kids):
        ns = [msg(Sequence, 10, "root", [11 + i for i in range(len(kids))])]
        for i, k in enumerate(kids):
            ns.append(msg(SLeaf, 11 + i, "l%d" % i) if k == "leaf" else msg(Subtree, 11 + i, "s%d" % i, (), [path_io(self.uris[k])]))
        free = self.m.state == TS.EDITABLE
        r = self.m.load_tree(LoadTree.Request(tree=TreeStructure(name="tree", nodes=ns, tick_frequency_hz=10.0)), LoadTree.Response())
        self.ctx.check(r.success == free, "a tree with subtrees can be loaded exactly when the tree is editable")

    def control(self, cmd):
        return call(self.m, "control_execution", C(command=cmd, tick_frequency_hz=10.0))

    def check(self, ticked=()):
        """ticked: the subtrees all of whose leaves were ticked just now"""
        ctx, m = self.ctx, self.m
        exp = subs(m.nodes)
        last = self.st[-1].tree_structures
        own = [t for t in last if {str(n.node_id) for n in t.nodes} == {str(i) for i in m.nodes} and t is last[-1]]
        ctx.check(len(own) == 1, "the structure of the tree itself is published")
        got = {str(t.tree_id): t for t in last[:-1]}
        ctx.check(len(got) == len(last) - 1, "the structure of no subtree is published twice")
        want = {str(n.tree_ref): (n, i) for n, i in exp} if self.on else {}
        ctx.check(set(got) <= set(want), "only structures of subtrees of the current tree are published" if self.on else "without subtree publishing no subtree is published")
        ctx.check(set(want) <= set(got), "the structures of all subtrees are published")
        for k, t in got.items():
            inner = want[k][1]
            ctx.check({str(n.node_id): (n.node_class, [str(c) for c in n.child_ids]) for n in t.nodes} == {str(i): (type(n).__name__, [str(c.node_id) for c in n.children]) for i, n in inner.nodes.items()},
                      "the published structure is that of the subtree")
            ctx.reach("structure")
        refs = {str(n.node_id): str(n.tree_ref) for n in last[-1].nodes}
        for i, n in m.nodes.items():
            if isinstance(n, Subtree):
                ctx.check(refs[str(i)] == str(n.tree_ref), "subtree nodes refer to their published structure")
        if self.sta_n == len(self.sta):
            self.data_checks(want, ticked)
            return
        self.sta_n = len(self.sta)
        last = self.sta[-1].tree_states
        got = {str(t.tree_id): t for t in last[:-1]}
        ctx.check(len(got) == len(last) - 1, "the state of no subtree is published twice")
        ctx.check(set(got) <= set(want), "only states of subtrees of the current tree are published" if self.on else "without subtree publishing no subtree is published")
        for k, t in got.items():
            ctx.check({str(x.node_id) for x in t.node_states} == {str(i) for i in want[k][1].nodes}, "the states of all nodes of a subtree are published")
            by = {str(x.node_id): x.state for x in t.node_states}
            for i, n in want[k][1].nodes.items():
                ctx.check(by[str(i)] == n.state, "the published states are those of the nodes of the subtree")
            ctx.reach("state")
        for k, (n, inner) in want.items():
            if any(not (x.state == S.UNINITIALIZED) for x in inner.nodes.values()):
                ctx.check(k in got, "the states of all subtrees that were started are published")
        self.data_checks(want, ticked)

    def data_checks(self, want, ticked):
        ctx, m = self.ctx, self.m
        if not self.on:
            self.da.clear()
        if self.data and self.on and ticked:
            ctx.check(len(self.da) > 0, "data is published after a tick")
        if self.data and self.da:
            last = self.da[-1].tree_data
            got = {str(t.tree_id): t for t in last[:-1]}
            ctx.check(len(got) == max(0, len(last) - 1), "the data of no subtree is published twice")
            ctx.check(set(got) <= set(want), "only data of subtrees of the current tree is published")
            for k in ticked:
                ctx.check(not self.on or k in got, "the data of all subtrees that were ticked is published")
                if k in got:
                    inner = want[k][1]
                    ctx.check(len(got[k].wiring_data) == len(inner.wirings), "the data of all wirings of a subtree is published")
                    for wd in got[k].wiring_data:
                        src = inner.nodes[uuid.UUID(str(wd.wiring.source.node_id))].node_config.outputs[wd.wiring.source.data_key]
                        ctx.check(wd.serialized_data == src.serialize_value(), "the published data is that of the wirings")
                        ctx.reach("data")
        if not self.data:
            ctx.check(not self.da or all(not t.wiring_data for t in self.da[-1].tree_data), "data is published only if that is enabled")
        # only what is published from now on can be about what the tree is from now on
        self.da.clear()


EDITS = ["remove", "remove root", "add", "add nested", "add refused", "morph to leaf", "morph to subtree", "options", "replace", "clear", "load", "load broken"]
RUNS = ["once", "reset", "shutdown", "setupshutdown"]
SETS = ["subtrees", "data"]


def step(w, i, op):
    ctx, m = w.ctx, w.m
    leaf = next((n for n in m.nodes.values() if isinstance(n, SLeaf)), None)
    sub = next((n for n in m.nodes.values() if isinstance(n, Subtree)), None)
    root = m.nodes.get(U(10))
    new = 40 + i
    ticked = ()
    if op == "remove" and sub:
        call(m, "remove_node", RemoveNode.Request(node_id=str(sub.node_id), remove_children=True))
    elif op == "remove root" and root:
        call(m, "remove_node", RemoveNode.Request(node_id=str(U(10)), remove_children=True))
    elif op in ("add", "add nested", "add deep") and root:
        call(m, "add_node", AddNode.Request(node=msg(Subtree, new, "x%d" % i, (), [path_io(w.uris[{"add": "c", "add nested": "n"}.get(op, "d")])]), parent_node_id=str(U(10))))
    elif op == "add refused" and leaf:
        r = call(m, "add_node", AddNode.Request(node=msg(Subtree, new, "x%d" % i, (), [path_io(w.uris["c"])]), parent_node_id=str(leaf.node_id)))
        ctx.check(not r.success, "a leaf has no children")
    elif op == "morph to leaf" and sub:
        call(m, "morph_node", MorphNode.Request(node_id=str(sub.node_id), new_node=msg(SLeaf, new, "y%d" % i)))
    elif op == "morph to subtree" and leaf:
        call(m, "morph_node", MorphNode.Request(node_id=str(leaf.node_id), new_node=msg(Subtree, new, "y%d" % i, (), [path_io(w.uris["n"])])))
    elif op == "options" and sub:
        call(m, "set_options", SetOptions.Request(node_id=str(sub.node_id), inputs=[path_io(w.uris["n" if "c" in cur(sub.node_config.inputs["subtree_path"])[-1:] else "c"])]))
    elif op == "replace" and sub and leaf:
        call(m, "replace_node", ReplaceNode.Request(old_node_id=str(sub.node_id), new_node_id=str(leaf.node_id)))
    elif op == "clear":
        call(m, "clear", ClearTree.Request())
    elif op == "load":
        w.load(["n"])
    elif op == "load broken":
        t = TreeStructure(name="tree", nodes=[msg(Sequence, 10, "root", (11, 12)), msg(Subtree, 11, "s", (), [path_io(w.uris["c"])]), msg(Subtree, 12, "s", (), [path_io(w.f.uri("nope"))])], tick_frequency_hz=10.0)
        ctx.check(not m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a subtree that can't be loaded is refused")
    elif op == "once":
        n0 = len(C28.PLAN.log)
        r = w.control(C.TICK_ONCE)
        names = {x[0] for x in C28.PLAN.log[n0:] if x[1] == "tick"}
        for n, inner in subs(m.nodes):
            leaves = [x.name for x in inner.nodes.values() if isinstance(x, SLeaf)]
            if r.success and leaves and set(leaves) <= names:
                ticked += (str(n.tree_ref),)
        ctx.reach("ticked")
    elif op == "reset":
        w.control(C.RESET)
    elif op == "shutdown":
        w.control(C.SHUTDOWN)
    elif op == "setupshutdown":
        w.control(C.SETUP_AND_SHUTDOWN)
    elif op == "subtrees":
        w.on = not w.on
        m.set_publish_subtrees(SetBool.Request(data=w.on), SetBool.Response())
    elif op == "data":
        w.data = not w.data
        m.set_publish_data(SetBool.Request(data=w.data), SetBool.Response())
    else:
        return
    w.check(ticked)


def history(ctx, kids, steps, ops, start=(), ticks=(SU,), first=None):
    with Files() as f:
        w = World(ctx, f, ticks)
        w.load(kids)
        w.check()
        for i in range(steps):
            o = first if i == len(start) and first else ops
            step(w, i, start[i] if i < len(start) else ctx.pick("op%d" % i, o))


def harnesses(tier):
    t = tier == "thorough"
    n = 3 if t else 2
    hs = []
    for k in (["c"], ["n", "leaf"], ["leaf"], ["c", "c"]):
        nm = "+".join(k)
        re = ("structure",) if k != ["leaf"] else ()
        hs.append(H("edits/" + nm, history, dict(kids=k, steps=n, ops=EDITS), "%d edits" % n, reach=re))
        hs.append(H("settings/" + nm, history, dict(kids=k, steps=n + 1, ops=SETS + ["add nested", "morph to subtree", "once"]), "%d settings, additions and ticks" % (n + 1), reach=("structure", "ticked")))
    for k in (["d"], ["leaf"]):
        nm = "deep/" + "+".join(k)
        hs.append(H(nm, history, dict(kids=k, steps=n + 2, ops=SETS + ["once", "add deep", "remove", "shutdown"], first=["data", "add deep"]), "subtrees nested three levels deep, %d settings, commands and edits" % (n + 2), reach=("structure", "ticked", "data")))
    for k in (["c"], ["n", "leaf"], ["n", "n"]):
        nm = "+".join(k)
        hs.append(H("runs/" + nm, history, dict(kids=k, steps=n + 1, ops=RUNS, ticks=RSF if t or nm != "n+n" else (R, SU)), "%d commands, any results of ticks" % (n + 1), reach=("structure", "state", "ticked")))
        hs.append(H("data/" + nm, history, dict(kids=k, steps=n + 2, ops=["once", "reset", "shutdown"] + SETS, start=("data", "once")), "data publishing, a tick, then %d commands and settings" % n, reach=("structure", "state", "ticked") + (("data",) if "n" in k else ())))
        hs.append(H("after runs/" + nm, history, dict(kids=k, steps=n + 2, ops=EDITS + ["once"], start=("once", "shutdown")), "a tick, a shutdown, then %d edits" % n, reach=("structure", "state", "ticked")))
    return hs
