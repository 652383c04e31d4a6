"""Editing of trees: initial trees, snapshots, the structural invariant (shared by C15, C16, C17)."""
from harness.data import *
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.exceptions import NodeConfigError
from ros_bt_py_interfaces.msg import Wiring, NodeDataLocation, NodeIO, NodeStructure, TreeStructure, TreeState
from ros_bt_py_interfaces.srv import (AddNode, AddNodeAtIndex, ChangeTreeName, ClearTree, LoadTree, LoadTreeFromPath, MorphNode, MoveNode, ReloadTree,
                                      RemoveNode, ReplaceNode, SetOptions, WireNodeData, ControlTreeExecution)
import rclpy.node

MOD = __name__
NIL = str(uuid.UUID(int=0))


class _Base:
    def add_extra_inputs(self):
        if cur(self.node_config.inputs["o"]) == 5:
            return Err(NodeConfigError("option not supported"))
        return Ok({})

    def _do_setup(self):
        for c in self.children:
            r = c.setup()
            if r.is_err():
                return r
        return Ok(S.IDLE)

    def _do_tick(self):
        for c in self.children:
            r = c.tick()
            if r.is_err():
                return r
        return Ok(SU)

    def _do_untick(self):
        for c in self.children:
            c.untick()
        return Ok(S.IDLE)

    def _do_reset(self):
        for c in self.children:
            c.reset()
        return Ok(S.IDLE)

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


def conf(n):
    return NodeConfig(inputs={"p": IntType(allow_static=False), "o": IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=5)},
                      outputs={"x": IntType()}, max_children=n)


@define_bt_node(conf(None))
class EFlow(_Base, FlowControl):
    pass


@define_bt_node(conf(1))
class EDeco(_Base, Decorator):
    pass


@define_bt_node(conf(0))
class ELeaf(_Base, Leaf):
    pass


@define_bt_node(NodeConfig(inputs={"q": IntType(allow_static=False), "o": IntType(allow_dynamic=False, is_static=True)}, outputs={"x": StringType(), "y": IntType()}, max_children=None))
class EOther(_Base, FlowControl):
    """Other inputs and outputs: wirings of a node morphed into it become invalid."""


CLS = {"F": EFlow, "D": EDeco, "L": ELeaf, "O": EOther}


def manager(**kw):
    m = TreeEditManager(ros_node=rclpy.node.Node("n"), name="tree", tree_id=U(999), **kw)
    return m


def io(key, typ, value=""):
    return NodeIO(key=key, type=typ.serialize_type(), serialized_value=value)


def opt(v):
    """the option o of the test node classes"""
    return io("o", IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=5), v)


def nmsg(kind, i=None, name=None, children=(), inputs=(), module=MOD):
    c = CLS.get(kind)
    return NodeStructure(module=module, node_class=c.__name__ if c else kind, name=name if name is not None else "n%s" % i, node_id=NIL if i is None else str(U(i)),
                         child_ids=[str(U(c)) for c in children], inputs=list(inputs), outputs=[], max_children=-1)


def wire(a, ka, b, kb):
    return Wiring(source=NodeDataLocation(node_id=str(U(a)), data_key=ka), target=NodeDataLocation(node_id=str(U(b)), data_key=kb))


def wkey(w):
    return (str(w.source.node_id), str(w.source.data_key), str(w.target.node_id), str(w.target.data_key))


def structure(kinds, parents, wires=(), opts={}):
    ch = {i: [j for j, p in enumerate(parents) if p == i] for i in range(len(kinds))}
    return TreeStructure(name="tree", nodes=[nmsg(k, i, children=ch[i], inputs=[opt("%d" % opts[i])] if i in opts else []) for i, k in enumerate(kinds)],
                         data_wirings=[wire(*w) for w in wires], tick_frequency_hz=10.0)


CAP = {"F": 99, "D": 1, "L": 0, "O": 99}


def parents(ctx, kinds, tag="par"):
    """Any forest over the nodes (a node's parent comes before it)."""
    ps = []
    for j, k in enumerate(kinds):
        o = [-1] + [i for i in range(j) if ps.count(i) < CAP[kinds[i]]]
        ps.append(ctx.pick("%s%d" % (tag, j), o) if j else -1)
    return ps


WIRES = [(0, "x", 1, "p"), (1, "x", 2, "p"), (2, "x", 0, "p"), (1, "x", 1, "p"), (0, "x", 2, "p"), (2, "x", 3, "p")]


def load(ctx, kinds, ps, wires=(), opts={}, **kw):
    m = manager(**kw)
    r = m.load_tree(LoadTree.Request(tree=structure(kinds, ps, wires, opts)), LoadTree.Response())
    ctx.check(r.success, "a valid tree can be loaded")
    return m


def call(m, name, req):
    """Call a service; the response must be a response."""
    resp = {"add_node": AddNode, "add_node_at_index": AddNodeAtIndex, "remove_node": RemoveNode, "morph_node": MorphNode, "set_options": SetOptions,
            "move_node": MoveNode, "replace_node": ReplaceNode, "wire_data": WireNodeData, "unwire_data": WireNodeData, "clear": ClearTree, "load_tree": LoadTree,
            "load_tree_from_path": LoadTreeFromPath, "reload_tree": ReloadTree, "change_tree_name": ChangeTreeName, "control_execution": ControlTreeExecution}[name].Response()
    return getattr(m, name)(req, resp)


def snap(m):
    nodes = {}
    for i, n in m.nodes.items():
        nodes[str(i)] = {"class": type(n).__module__ + "." + type(n).__name__, "name": n.name, "id": str(n.node_id), "parent": None if n.parent is None else str(n.parent.node_id),
                         "children": [str(c.node_id) for c in n.children], "state": str(n.state),
                         "in": {k: (type(c).__name__, c.is_static, cur(c)) for k, c in n.node_config.inputs.items()},
                         "out": {k: type(c).__name__ for k, c in n.node_config.outputs.items()}}
    return {"nodes": nodes, "wirings": sorted(wkey(w) for w in m.wirings), "name": m.name}


def links(s):
    """structure only"""
    return {i: (n["class"], n["parent"], tuple(n["children"])) for i, n in s["nodes"].items()}


def invariant(ctx, m, what):
    by = {}
    for i, n in m.nodes.items():
        ctx.check(i == n.node_id, what + ": every node is known under its own id")
        by[str(i)] = n
    for i, n in by.items():
        seen = set()
        for c in n.children:
            ci = str(c.node_id)
            ctx.check(by.get(ci) is c, what + ": every child is a node of the tree")
            ctx.check(c.parent is n, what + ": the parent of every child is the node it is a child of")
            ctx.check(ci not in seen, what + ": no node is twice a child of the same node")
            seen.add(ci)
        if n.parent is not None:
            ctx.check(by.get(str(n.parent.node_id)) is n.parent, what + ": every parent is a node of the tree")
            ctx.check(any(c is n for c in n.parent.children), what + ": every node with a parent is among its children")
        mx = n.node_config.max_children
        ctx.check(mx is None or len(n.children) <= mx, what + ": no node has more children than it supports")
        up, steps = n.parent, 0
        while up is not None and steps <= len(by):
            up, steps = up.parent, steps + 1
        ctx.check(up is None, what + ": no node is its own ancestor")
    for w in m.wirings:
        a, ka, b, kb = wkey(w)
        ctx.check(a in by and b in by, what + ": wirings connect nodes of the tree")
        src, dst = by[a].node_config.outputs.get(ka), by[b].node_config.inputs.get(kb)
        ctx.check(src is not None and dst is not None, what + ": wirings connect existing outputs and inputs")
        ctx.check(dst.get_runtime_type().is_compatible(src.get_runtime_type()), what + ": wirings connect compatible types")


def ids(ctx, tag, n, bad=True):
    """id of a node of the tree, of no node, or no id at all"""
    return ctx.pick(tag, [str(U(i)) for i in range(n)] + ([str(U(77)), "no-uuid", NIL] if bad else []))


def num(i):
    """index of the node with this id"""
    try:
        k = uuid.UUID(i).int - 0x5000
    except ValueError:
        return None
    return k if 0 <= k < 50 else None
