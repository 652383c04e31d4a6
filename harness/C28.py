"""Subtrees: a Subtree node compared with the tree of the file it loads."""
import os
import shutil
import tempfile

import rosidl_runtime_py

from harness.edit import *
from ros_bt_py.ros_nodes.subtree import Subtree
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.nodes.io import IOInput, IOOutput
from ros_bt_py.nodes.constant import Constant
from ros_bt_py.data_types import PathType, BoolType, FloatType, StringType, GenericType, GENERIC_TYPE_MAP, ReferenceType

MOD = __name__
ASSUMPTIONS = ["tree files don't change while a node uses them", "the nodes of a subtree don't block"]
PLAN = None


class Plan:
    """Results of the leaves: the n-th call of an operation of a leaf gives the same result in all copies of the tree."""

    def __init__(self, ctx, opts):
        self.ctx, self.opts, self.memo, self.logs, self.log = ctx, opts, {}, {}, None

    def result(self, leaf, op):
        n = sum(1 for x in self.log if x[:2] == (leaf, op))
        k = "%s.%s%d" % (leaf, op, n)
        o = self.opts.get(op, {"tick": (SU,), "shutdown": (S.SHUTDOWN,)}.get(op, (S.IDLE,)))
        if k not in self.memo:
            self.memo[k] = o[0] if len(o) == 1 else self.ctx.enum(k, o)
        self.log.append((leaf, op))
        r = self.memo[k]
        return Err(BehaviorTreeException("leaf")) if ERR in o and r == ERR else Ok(r)


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class SLeaf(Leaf):
    def _do_setup(self):
        return PLAN.result(self.name, "setup")

    def _do_tick(self):
        return PLAN.result(self.name, "tick")

    def _do_untick(self):
        return PLAN.result(self.name, "untick")

    def _do_reset(self):
        return PLAN.result(self.name, "reset")

    def _do_shutdown(self):
        return PLAN.result(self.name, "shutdown")

    def _do_calculate_utility(self):
        return PLAN.utility(self.name)


def I64(**k):
    return IntType(min_value=-(1 << 63), max_value=(1 << 63) - 1, **k)


@define_bt_node(NodeConfig(inputs={"v": I64(allow_static=False)}, outputs={"w": I64()}, max_children=0))
class SAdd(SLeaf):
    """w = v + 1, if its tick succeeds"""

    def _do_tick(self):
        r = PLAN.result(self.name, "tick")
        if r.is_ok() and r.unwrap() == SU:
            self.outputs.set_value("w", cur(self.node_config.inputs["v"]) + 1)
        return r


def msg(cls, i, name, children=(), inputs=()):
    return NodeStructure(module=cls.__module__, node_class=cls.__name__, name=name, node_id=str(U(i)), child_ids=[str(U(c)) for c in children], inputs=list(inputs), outputs=[], max_children=-1)


class Files:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-c28-")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def uri(self, name):
        return "file://%s/%s" % (self.dir, name)

    def text(self, name, text):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write(text)
        return self.uri(name)

    def tree(self, name, nodes, wires=()):
        t = TreeStructure(name=name, nodes=list(nodes), data_wirings=[wire(*w) for w in wires], tick_frequency_hz=10.0)
        return self.text(name, "version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(t))


def path(uri):
    p = PathType(allow_dynamic=False, is_static=True)
    p.set_value(uri)
    return p


def path_io(uri):
    return io("subtree_path", PathType(allow_dynamic=False, is_static=True), '"%s"' % uri)


def subtree(uri, i=500, **kw):
    return Subtree(node_id=U(i), name="sub", ros_node=rclpy.node.Node("n"), new_inputs={"subtree_path": path(uri)}, **kw)


SHAPES = {
    "leaf": lambda f: f.tree("a", [msg(SLeaf, 1, "l1")]),
    "sequence": lambda f: f.tree("a", [msg(Sequence, 1, "s", (2, 3)), msg(SLeaf, 2, "l1"), msg(SLeaf, 3, "l2")]),
}
SHAPES["nested"] = lambda f: (SHAPES["leaf"](f), f.tree("b", [msg(Subtree, 7, "inner", (), [path_io(f.uri("a"))])]))[1]
SHAPES["between"] = lambda f: (SHAPES["leaf"](f), f.tree("b", [msg(Sequence, 1, "s", (2, 3)), msg(Subtree, 2, "inner", (), [path_io(f.uri("a"))]), msg(SLeaf, 3, "l2")]))[1]


def twin(shape):
    """The tree without Subtree nodes."""
    if shape in ("leaf", "nested"):
        return SLeaf(node_id=U(1), name="l1")
    s = Sequence(node_id=U(1), name="s")
    for i, n in ((2, "l1"), (3, "l2")):
        s.add_child(SLeaf(node_id=U(i), name=n)).unwrap()
    return s


def life(ctx, shape, steps, opts, start=()):
    """The same calls have the same results and reach the same nodes."""
    global PLAN
    PLAN = p = Plan(ctx, opts)
    with Files() as f:
        a, b = subtree(SHAPES[shape](f)), twin(shape)
        la, lb = [], []
        for i in range(steps):
            op = start[i] if i < len(start) else ctx.pick("op%d" % i, ("setup", "tick", "untick", "reset", "shutdown"))
            p.log = la
            ra = val(getattr(a, op)())
            p.log = lb
            rb = val(getattr(b, op)())
            ctx.check(la == lb, "a call of a subtree reaches the nodes a call of its root reaches")
            ctx.check(ra == rb, "a call of a subtree has the result of the call of its root")
            ctx.check(a.state == b.state or rb == ERR and a.state == S.BROKEN, "the state of a subtree is the state of its root")
            ctx.reach(op)
            if rb == ERR:
                ctx.reach("error")
                if a.state != b.state:
                    break


def util(ctx, n):
    """Utility is that of the root."""
    global PLAN
    PLAN = p = Plan(ctx, {})
    p.log = []
    u = [UtilityBounds(can_execute=ctx.bool("e%d" % i), has_lower_bound_success=ctx.bool("l%d" % i), lower_bound_success=ctx.real("lv%d" % i, 0, 9), has_upper_bound_success=ctx.bool("u%d" % i), upper_bound_success=ctx.real("uv%d" % i, 0, 9),
                       has_lower_bound_failure=ctx.bool("fl%d" % i), lower_bound_failure=ctx.real("flv%d" % i, 0, 9), has_upper_bound_failure=ctx.bool("fu%d" % i), upper_bound_failure=ctx.real("fuv%d" % i, 0, 9)) for i in range(n)]
    err = ctx.bool("err")
    p.utility = lambda name: Err(BehaviorTreeException("u")) if err else Ok(u[int(name[1]) - 1])
    shape = "leaf" if n == 1 else "sequence"
    with Files() as f:
        a, b = subtree(SHAPES[shape](f)), twin(shape)
        if ctx.bool("up"):
            a.setup(), b.setup()
        ra, rb = a.calculate_utility(), b.calculate_utility()
        ctx.check(ra.is_err() == rb.is_err(), "the utility of a subtree is an error iff that of its root is")
        if rb.is_ok():
            x, y = ra.unwrap(), rb.unwrap()
            ctx.check(sym_and(*[getattr(x, k) == getattr(y, k) for k in ("can_execute", "has_lower_bound_success", "lower_bound_success", "has_upper_bound_success", "upper_bound_success", "has_lower_bound_failure", "lower_bound_failure", "has_upper_bound_failure", "upper_bound_failure")]),
                      "the utility of a subtree is that of its root")
            ctx.reach("bounds")
        else:
            ctx.reach("error")


def gtype(t):
    g = GenericType(value=GENERIC_TYPE_MAP[t])
    return io("io_type", GenericType(allow_dynamic=False, is_static=True), g.serialize_value())


def pipe(f, name="p", depth=0):
    """in -> w = v + 1 -> out"""
    if not depth:
        return f.tree(name, [msg(Sequence, 1, "s", (2, 3, 4)), msg(IOInput, 2, "i", (), [gtype(int)]), msg(SAdd, 3, "l1"), msg(IOOutput, 4, "o", (), [gtype(int)])],
                      [(2, "out", 3, "v"), (3, "w", 4, "in")])
    pipe(f, "q", depth - 1)
    return f.tree(name, [msg(Sequence, 1, "s", (2, 3, 4)), msg(IOInput, 2, "i", (), [gtype(int)]), msg(Subtree, 3, "x", (), [path_io(f.uri("q"))]), msg(IOOutput, 4, "o", (), [gtype(int)])],
                  [(2, "out", 3, "%s.in" % U(2)), (3, "%s.out" % U(4), 4, "in")])


def data(ctx, steps, depth):
    """Outputs are computed from the latest inputs; only a success of the nodes before changes them."""
    global PLAN
    PLAN = p = Plan(ctx, {"tick": ALL4})
    p.log = []
    IN, OUT = "%s.in" % U(2), "%s.out" % U(4)
    with Files() as f:
        n = subtree(pipe(f, depth=depth))
        ctx.check(IN in n.node_config.inputs and OUT in n.node_config.outputs, "the inputs and outputs of a subtree are those of its IO nodes")
        ctx.check([k for k in n.node_config.inputs] == ["subtree_path", IN] and [k for k in n.node_config.outputs] == [OUT], "a subtree has no other inputs and outputs")
        ctx.check(isinstance(n.node_config.inputs[IN], IntType) and isinstance(n.node_config.outputs[OUT], IntType), "inputs and outputs have the type of the IO nodes")
        ok(ctx, n.setup(), "setup")
        v, o = None, None

        def ticked():
            return sum(1 for x in p.log if x == ("l1", "tick"))
        for i in range(steps):
            if ctx.bool("new%d" % i):
                v = ctx.int("v%d" % i, -(1 << 62), 1 << 62)
                ok(ctx, n.node_config.inputs[IN].set_value(v), "set input")
            before = ticked()
            r = n.tick()
            if v is None:
                ctx.check(r.is_err(), "a subtree without the value of an input can't be ticked")
                ctx.check(ticked() == before, "a subtree without the value of an input isn't executed")
                ctx.reach("unset")
                break
            ctx.check(ticked() == before + 1, "a tick of a subtree ticks its nodes")
            k = p.memo["l1.tick%d" % before]
            ctx.check(val(r) == k, "the result of a subtree is that of its root")
            if k == SU:
                o = v + 1
            g = n.node_config.outputs[OUT].get_value()
            if o is None:
                ctx.check(g.is_err(), "an output that wasn't computed has no value")
            else:
                ctx.check(g.is_ok() and g.unwrap() == o, "the output is the one of the latest execution, for the latest inputs")
            if k == SU:
                ctx.reach("computed")
            if k == ERR:
                break


def two(ctx, steps):
    """Two nodes for the same file don't influence each other."""
    global PLAN
    PLAN = p = Plan(ctx, {})
    p.log = []
    IN, OUT = "%s.in" % U(2), "%s.out" % U(4)
    with Files() as f:
        uri = pipe(f)
        ns = [subtree(uri, 500), subtree(uri, 501)]
        vs, os = [None, None], [None, None]
        for i, n in enumerate(ns):
            ok(ctx, n.setup(), "setup")
            vs[i] = ctx.int("v%d" % i, 0, 99)
            ok(ctx, n.node_config.inputs[IN].set_value(vs[i]), "set input")
        for s in range(steps):
            k = ctx.pick("who%d" % s, (0, 1))
            if ctx.bool("new%d" % s):
                vs[k] = ctx.int("w%d" % s, 0, 99)
                ok(ctx, ns[k].node_config.inputs[IN].set_value(vs[k]), "set input")
            ctx.check(val(ns[k].tick()) == SU, "a subtree succeeds")
            os[k] = vs[k] + 1
            for i, n in enumerate(ns):
                g = n.node_config.outputs[OUT].get_value()
                ctx.check(g.is_err() if os[i] is None else g.is_ok() and g.unwrap() == os[i], "a subtree node isn't influenced by another one for the same file")
                ctx.check((n.state == S.IDLE) if os[i] is None else (n.state == SU), "a subtree node isn't influenced by another one for the same file")
        ctx.reach("done")


def wired(ctx, ticks, depth):
    """Subtrees in a tree: data flows through them, within one tick."""
    global PLAN
    PLAN = p = Plan(ctx, {"tick": RSF})
    p.log = []
    IN, OUT = "%s.in" % U(2), "%s.out" % U(4)
    with Files() as f:
        uri = pipe(f, depth=depth)
        m = manager()
        t = TreeStructure(name="tree", nodes=[msg(Sequence, 1, "s", (2, 3, 4)), msg(SAdd, 2, "l0"), msg(Subtree, 3, "sub", (), [path_io(uri)]), msg(SAdd, 4, "l2")],
                          data_wirings=[wire(2, "w", 3, IN), wire(3, OUT, 4, "v")], tick_frequency_hz=10.0)
        r = m.load_tree(LoadTree.Request(tree=t), LoadTree.Response())
        ctx.check(r.success, "a tree with wired subtrees can be loaded")
        ctx.check(sorted(wkey(w) for w in m.wirings) == sorted(wkey(w) for w in t.data_wirings), "the wirings of subtrees are kept")
        nodes = {n.name: n for n in m.nodes.values()}
        for i in range(ticks):
            v = ctx.int("v%d" % i, 0, 99)
            if i == 0:
                root = m.find_root().unwrap()
                ok(ctx, m.data_flow_manager.initialize(m.nodes, m.wirings), "initialize")
                ok(ctx, root.setup(), "setup")
            ok(ctx, nodes["l0"].node_config.inputs["v"].set_value(v), "set")
            had = {k: sum(1 for x in p.log if x == (k, "tick")) for k in ("l0", "l1", "l2")}
            r = val(root.tick())
            want, x, exp = SU, v, {}
            for k in ("l0", "l1", "l2"):
                g = p.memo.get("%s.tick%d" % (k, had[k]))
                ctx.check(g is not None, "all nodes before the first one that doesn't succeed are ticked")
                if not (g == SU):
                    want = g
                    break
                x = x + 1
                exp[k] = x
            ctx.check(r == want, "the result is that of the first node that doesn't succeed")
            for k, key in (("l0", "l0"), ("l2", "l2")):
                if k in exp:
                    ctx.check(cur(nodes[k].node_config.outputs["w"]) == exp[k], "data flows through a subtree within a tick")
                    ctx.reach("flows" if k == "l2" else "starts")
            if not (want == R):
                ok(ctx, root.reset(), "reset")


BAD = {
    "missing": lambda f: f.uri("nope"),
    "no scheme": lambda f: f.tree("a", [msg(SLeaf, 1, "l1")])[7:],
    "package": lambda f: "package://no_such_package/a.yaml",
    "empty path": lambda f: "",
    "empty": lambda f: f.text("a", ""),
    "no tree": lambda f: f.text("a", "just a text"),
    "list": lambda f: f.text("a", "- 1\n- 2\n"),
    "broken": lambda f: f.text("a", "{"),
    "binary": lambda f: f.text("a", "\x00\x01"),
    "no nodes": lambda f: f.tree("a", []),
    "two trees": lambda f: f.text("a", open(f.tree("b", [msg(SLeaf, 1, "l1")])[7:]).read() + "\n---\n" + open(f.uri("b")[7:]).read()),
    "unknown class": lambda f: f.tree("a", [NodeStructure(module="no.such.module", node_class="X", node_id=str(U(1)))]),
    "unknown child": lambda f: f.tree("a", [msg(Sequence, 1, "s", (2,))]),
    "bad id": lambda f: f.tree("a", [NodeStructure(module=MOD, node_class="SLeaf", node_id="x")]),
    "bad wiring": lambda f: f.tree("a", [msg(SLeaf, 1, "l")], [(1, "x", 1, "y")]),
    "inner missing": lambda f: f.tree("a", [msg(Subtree, 1, "x", (), [path_io(f.uri("nope"))])]),
    "itself": lambda f: f.tree("a", [msg(Subtree, 1, "x", (), [path_io(f.uri("a"))])]),
    "itself below": lambda f: f.tree("a", [msg(Sequence, 1, "s", (2, 3)), msg(SLeaf, 2, "l"), msg(Subtree, 3, "x", (), [path_io(f.uri("a"))])]),
    "each other": lambda f: (f.tree("b", [msg(Subtree, 1, "x", (), [path_io(f.uri("a"))])]), f.tree("a", [msg(Subtree, 1, "x", (), [path_io(f.uri("b"))])]))[1],
    # can be loaded, but not executed
    "two roots": lambda f: f.tree("a", [msg(SLeaf, 1, "l1"), msg(SLeaf, 2, "l2")]),
}


def bad(ctx, kinds):
    """A tree whose subtree can't be loaded is refused, and the manager stays usable."""
    global PLAN
    PLAN = p = Plan(ctx, {})
    p.log = []
    with Files() as f:
        kind = ctx.pick("kind", kinds)
        uri = BAD[kind](f)
        m = manager()
        how = ctx.pick("how", ("load", "add"))
        if how == "load":
            t = TreeStructure(name="tree", nodes=[msg(Sequence, 10, "s", (11,)), msg(Subtree, 11, "sub", (), [path_io(uri)])], tick_frequency_hz=10.0)
            r = m.load_tree(LoadTree.Request(tree=t), LoadTree.Response())
        else:
            r = m.load_tree(LoadTree.Request(tree=TreeStructure(name="tree", nodes=[msg(Sequence, 10, "s")], tick_frequency_hz=10.0)), LoadTree.Response())
            ctx.check(r.success, "a tree can be loaded")
            r = call(m, "add_node", AddNode.Request(node=msg(Subtree, 11, "sub", (), [path_io(uri)]), parent_node_id=str(U(10))))
        if kind == "two roots":
            if r.success:
                r = call(m, "control_execution", ControlTreeExecution.Request(command=ControlTreeExecution.Request.TICK_ONCE, tick_frequency_hz=10.0))
                ctx.check(not r.success, "a subtree with several roots isn't executed")
                ctx.check(not p.log or all(x[1] != "tick" for x in p.log), "a subtree with several roots isn't executed")
            ctx.reach("refused")
            return
        ctx.check(not r.success, "a subtree that can't be loaded is refused")
        ctx.check(r.error_message != "", "a refusal has a reason")
        if how == "add":
            ctx.check(len(m.nodes) == 1, "a subtree that can't be loaded isn't added")
        r = m.load_tree(LoadTree.Request(tree=TreeStructure(name="tree", nodes=[msg(SLeaf, 1, "l1")], tick_frequency_hz=10.0)), LoadTree.Response())
        ctx.check(r.success, "another tree can be loaded afterwards")
        ctx.reach("refused")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    n = 4 if t else 3
    for s in SHAPES:
        hs.append(H("life/" + s, life, dict(shape=s, steps=n + 1, opts={"tick": RSF}, start=("setup",)), "setup and any %d calls, any results of ticks" % n, reach=("tick", "untick", "reset", "shutdown")))
    for s in ("leaf", "sequence", "nested"):
        hs.append(H("faults/" + s, life, dict(shape=s, steps=n, opts={"setup": (S.IDLE, ERR), "tick": ALL4, "untick": (S.IDLE, ERR), "reset": (S.IDLE, ERR), "shutdown": (S.SHUTDOWN, ERR)}, start=("setup",)), "setup and any %d calls, any results and errors" % n, reach=("setup", "tick", "untick", "reset", "shutdown", "error")))
    for k in (1, 2):
        hs.append(H("utility/%d" % k, util, dict(n=k), "any utilities of %d leaves" % k, reach=("bounds",) + (("error",) if k == 1 else ()), real_floats=True))
    for d in (0, 1) + ((2,) if t else ()):
        hs.append(H("data/%d" % d, data, dict(steps=4 if t else 3, depth=d), "%d ticks with any inputs and results, nesting depth %d" % (4 if t else 3, d + 1), reach=("unset", "computed")))
        hs.append(H("wired/%d" % d, wired, dict(ticks=3 if t else 2, depth=d), "%d ticks with any inputs and results, nesting depth %d" % (3 if t else 2, d + 1), reach=("flows", "starts")))
    hs.append(H("two", two, dict(steps=4 if t else 3), "%d ticks of 2 nodes with any inputs" % (4 if t else 3), reach=("done",)))
    ks = sorted(BAD)
    for i in range(4):
        hs.append(H("bad/%d" % i, bad, dict(kinds=ks[i::4]), "files: " + ", ".join(ks[i::4]), reach=("refused",)))
    return hs
