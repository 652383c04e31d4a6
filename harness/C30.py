"""Exporting a tree: what it, a part of it or one node is described as is what it is."""
import copy

from harness.edit import *
from harness.edit import _Base
import harness.C28 as c28
from harness.C28 import Plan, SLeaf, SAdd, msg, Files
from ros_bt_py.node import Node
from ros_bt_py.nodes.constant import Constant
from ros_bt_py.nodes.sequence import Sequence, MemorySequence
from ros_bt_py.nodes.fallback import Fallback
from ros_bt_py.nodes.decorators import Inverter, Repeat, Retry
from ros_bt_py_interfaces.srv import GetSubtree, GenerateSubtree

MOD = __name__
ASSUMPTIONS = ["node classes are the same where a tree is described and where it is loaded"]

CONTAINERS = {
    "int": lambda **k: IntType(min_value=-9, max_value=9, **k),
    "wide": lambda **k: IntType(min_value=-(1 << 63), **k),
    "bool": lambda **k: BoolType(**k),
    "float": lambda **k: FloatType(**k),
    "string": lambda **k: StringType(max_length=4, **k),
    "path": lambda **k: PathType(**k),
    "list": lambda **k: ListType(element_type=IntType(), **k),
    "dict": lambda **k: DictType(element_type=StringType(), **k),
    "bytes": lambda **k: BytesType(max_length=8, **k),
    "topic": lambda **k: RosTopicName(**k),
    "msg": lambda **k: RosTopicType(**k),
}


def value(ctx, kind, tag="v"):
    return {"int": lambda: ctx.int(tag, -9, 9), "wide": lambda: ctx.int(tag, -(1 << 63), (1 << 64) - 1), "bool": lambda: ctx.bool(tag),
            "float": lambda: ctx.pick(tag, [0.0, 0.1, -1e-300]), "string": lambda: ctx.str(tag, 4), "path": lambda: "file://" + ctx.str(tag, 3),
            "list": lambda: [ctx.int("%s%d" % (tag, i), -99, 99) for i in range(ctx.pick(tag + ".n", [0, 1, 2]))],
            "dict": lambda: {k: ctx.str(tag + k, 2) for k in ctx.pick(tag + ".k", [[], ["a"], ["a", "b c"]])},
            "bytes": lambda: ctx.pick(tag, [b"", b"\x00\xff"]), "topic": lambda: ctx.pick(tag, ["/a", "b/c"]),
            "msg": lambda: {"type": None}}[kind]()


def rclass(kind):
    return type("R" + kind.capitalize(), (_Base, FlowControl), {"__module__": MOD, "add_extra_inputs": lambda self: Ok({})})


KINDS = ["int", "wide", "bool", "float", "string", "path", "list", "dict", "bytes", "topic"]
for _k in KINDS:
    globals()["R" + _k.capitalize()] = define_bt_node(NodeConfig(
        inputs={"v": CONTAINERS[_k](allow_dynamic=False, is_static=True), "e": CONTAINERS[_k](), "d": CONTAINERS[_k](allow_static=False)},
        outputs={"x": CONTAINERS[_k](), "y": ListType(element_type=IntType())}, max_children=None))(rclass(_k))

TYPES = {"int": int, "bool": bool, "float": float, "string": str}


def tvalue(t):
    return GENERIC_TYPE_MAP[TYPES[t]]


@define_bt_node(NodeConfig(inputs={"t": GenericType(allow_dynamic=False, is_static=True), "r": ReferenceType(reference="t", allow_dynamic=False, is_static=True),
                                   "l": ReferenceListType(reference="t"), "q": ReferenceType(reference="t", allow_static=False)},
                           outputs={"x": ReferenceType(reference="t")}, max_children=1))
class RRef(_Base, Decorator):
    def add_extra_inputs(self):
        return Ok({})


@define_bt_node(NodeConfig(inputs={"n": IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=2)}, outputs={}, max_children=0))
class RExtra(_Base, Leaf):
    """Its inputs and outputs depend on its option."""

    def add_extra_inputs(self):
        return Ok({"in%d" % i: IntType() for i in range(self.inputs.get_value_as("n", int).unwrap())})

    def add_extra_outputs(self):
        return Ok({"out%d" % i: StringType() for i in range(self.inputs.get_value_as("n", int).unwrap())})


def describe(n):
    """All that describes a node (not its state)."""
    t = lambda c: (type(c).__name__, str(c.serialize_type()))
    return {"class": type(n).__module__ + "." + type(n).__name__, "name": n.name, "id": str(n.node_id), "max": n.node_config.max_children,
            "children": [str(c.node_id) for c in n.children],
            "in": {k: t(c) + (c.is_static, cur(c) if c.is_static else None) for k, c in n.node_config.inputs.items()},
            "out": {k: t(c) for k, c in n.node_config.outputs.items()}}


def message(ctx, n, s, what="node"):
    """s describes the node n"""
    ctx.check(s.module == type(n).__module__ and s.node_class == type(n).__name__, what + ": a description names the class")
    ctx.check(s.name == n.name and s.node_id == str(n.node_id), what + ": a description has the name and the id")
    ctx.check(list(s.child_ids) == [str(c.node_id) for c in n.children], what + ": a description has the children in order")
    ctx.check(s.max_children == (-1 if n.node_config.max_children is None else n.node_config.max_children), what + ": a description has the number of children supported")
    ctx.check([i.key for i in s.inputs] == list(n.node_config.inputs) and [i.key for i in s.outputs] == list(n.node_config.outputs), what + ": a description has all inputs and outputs")


def again(ctx, n, what):
    """Node.from_msg(n.to_structure_msg()) is n"""
    s = n.to_structure_msg()
    message(ctx, n, s)
    r = Node.from_msg(s, n.ros_node)
    ctx.check(r.is_ok(), what + ": a node can be made from its description")
    m = r.unwrap()
    a, b = describe(n), describe(m)
    for k in ("class", "name", "id", "max"):
        ctx.check(a[k] == b[k], what + ": a node made from a description has the same " + k)
    ctx.check(list(a["in"]) == list(b["in"]) and list(a["out"]) == list(b["out"]), what + ": a node made from a description has the same inputs and outputs")
    ctx.check(all(a["in"][k][:3] == b["in"][k][:3] for k in a["in"]) and a["out"] == b["out"], what + ": a node made from a description has the same types")
    ctx.check(sym_and(*[same(a["in"][k][3], b["in"][k][3]) for k in a["in"]]), what + ": a node made from a description has the same option values")
    ctx.check(m.state == S.UNINITIALIZED and m.children == [] and m.parent is None, what + ": a node made from a description is new")
    return m


def names(ctx):
    return ctx.pick("name", ["n", "", "a b\"\\", "\u00e4\n"])


def node(ctx, kind):
    global_cls = globals()["R" + kind.capitalize()]
    ins = {}
    a, b = CONTAINERS[kind](allow_dynamic=False, is_static=True), CONTAINERS[kind](is_static=ctx.bool("static"))
    if not ctx.bool("unset"):
        v = value(ctx, kind)
        ok(ctx, a.set_value(v), "the value fits")
        ins["v"] = a
    if ctx.bool("second"):
        if b.is_static:
            ok(ctx, b.set_value(value(ctx, kind, "w")), "the value fits")
        ins["e"] = b
    n = global_cls(node_id=U(ctx.pick("id", [0, 3])), name=names(ctx), new_inputs=ins, ros_node=rclpy.node.Node("n"))
    if n.name == "":
        n.name = "x"
    again(ctx, again(ctx, n, kind), kind + " again")
    ctx.reach("done")


def refs(ctx):
    t = ctx.pick("type", sorted(TYPES))
    g, r, l = GenericType(allow_dynamic=False, is_static=True), ReferenceType(reference="t", allow_dynamic=False, is_static=True), ReferenceListType(reference="t", is_static=ctx.bool("static"))
    ok(ctx, g.set_value(tvalue(t)), "type")
    ins = {"t": g, "r": r, "l": l}
    for c in (r, l):
        c.set_type_map(ins)
    v = lambda tag: {"int": lambda: ctx.int(tag, -99, 99), "bool": lambda: ctx.bool(tag), "float": lambda: ctx.pick(tag, [0.5, -3.0]), "string": lambda: ctx.str(tag, 3)}[t]()
    ok(ctx, r.set_value(v("v")), "value")
    if l.is_static:
        ok(ctx, l.set_value([v("l%d" % i) for i in range(ctx.pick("n", [0, 2]))]), "values")
    n = RRef(node_id=U(1), name="n", new_inputs=ins, ros_node=rclpy.node.Node("n"))
    m = again(ctx, again(ctx, n, "references"), "references again")
    ctx.check(type(m.node_config.outputs["x"].get_runtime_type()) is type(n.node_config.outputs["x"].get_runtime_type()), "a reference refers to the same type")
    ctx.reach("done")


def extra(ctx):
    c = IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=2)
    k = ctx.pick("n", [0, 1, 2])
    c.set_value(k)
    ins = {"n": c}
    for i in range(k):
        d = IntType(is_static=ctx.bool("static%d" % i))
        if d.is_static:
            d.set_value(ctx.int("v%d" % i, -9, 9))
        ins["in%d" % i] = d
    n = RExtra(node_id=U(1), name="n", new_inputs=ins, ros_node=rclpy.node.Node("n"))
    m = again(ctx, n, "extra")
    ctx.check(len(m.node_config.outputs) == k, "the outputs depend on the option")
    ctx.reach("done")


def repo_classes():
    import importlib
    import pkgutil
    out = []
    for pk in ("ros_bt_py.nodes", "ros_bt_py.ros_nodes"):
        pkg = importlib.import_module(pk)
        for mi in sorted(pkgutil.iter_modules(pkg.__path__), key=lambda x: x.name):
            mod = importlib.import_module(pk + "." + mi.name)
            out += [c for _, c in sorted(vars(mod).items()) if isinstance(c, type) and issubclass(c, Node) and c.__module__ == mod.__name__ and c._node_config is not None]
    return [c for c in out if c.__name__ not in ("Subtree",)]


CHOICE = {"IntType": lambda ctx, k, c: ctx.int(k, max(c.min_value, -99), 99), "BoolType": lambda ctx, k, c: ctx.bool(k), "FloatType": lambda ctx, k, c: ctx.pick(k, [0.5, 7.0])}


def classes(ctx, some):
    """Nodes of the classes of this package, with symbolic numbers and truth values as options where they have such options."""
    cs = repo_classes()
    cls = cs[ctx.pick("class", [i for i in range(len(cs)) if i % some[1] == some[0]])]
    ins = {}
    for k, c in cls._node_config.inputs.items():
        f = CHOICE.get(type(c).__name__)
        if f and c.allow_static:
            x = get_iotype_for_msg(c.serialize_type()).unwrap()
            x.is_static = True
            if x.set_value(f(ctx, k, c)).is_ok():
                ins[k] = x
    try:
        n = cls(node_id=U(1), name="n", new_inputs=ins, ros_node=rclpy.node.Node("n"))
    except Exception:
        ctx.reach("needs options")
        return
    again(ctx, n, "class")
    ctx.reach("done")


# ---- trees

def order(m, root):
    """ids of the nodes below root, parents before their children, children in order"""
    r = [str(root.node_id)]
    for c in root.children:
        r += order(m, c)
    return r


def reload(ctx, t, what):
    m = manager()
    r = m.load_tree(LoadTree.Request(tree=copy.deepcopy(t)), LoadTree.Response())
    ctx.check(r.success, what + ": what is described can be loaded")
    return m


def equal(ctx, a, b, ids, what):
    """the trees a and b agree on the nodes ids"""
    x, y = snap(a)["nodes"], snap(b)["nodes"]
    ctx.check(sorted(y) == sorted(ids), what + ": a description has exactly the nodes it should have")
    for i in ids:
        for k in ("class", "name", "id", "out"):
            ctx.check(x[i][k] == y[i][k], what + ": the described nodes have their %s" % k)
        ctx.check(sym_and(*[same(x[i]["in"][k], y[i]["in"][k]) for k in x[i]["in"]]) and list(x[i]["in"]) == list(y[i]["in"]), what + ": the described nodes have their inputs and options")
        ctx.check(y[i]["children"] == [c for c in x[i]["children"] if c in ids], what + ": the described nodes have their children, in order")
        ctx.check(y[i]["parent"] == (x[i]["parent"] if x[i]["parent"] in ids else None), what + ": the described nodes have their parents")


WS = [(0, "x", 1, "p"), (1, "x", 2, "p"), (2, "x", 0, "p"), (0, "x", 2, "p"), (0, "x", 3, "p"), (3, "x", 1, "p"), (1, "x", 1, "p")]
SETS = ["FFLL", "FDLL", "FFFL"]


def tree(ctx, kinds, roots=True, wires=WS, nw=2):
    ps = parents(ctx, kinds)
    if not roots:
        ctx.assume(ps.count(-1) == 1)
    sel = [w for w in wires if w[0] < len(kinds) and w[2] < len(kinds)]
    ws = []
    for j in range(nw):
        w = ctx.pick("wire%d" % j, [None] + [w for w in sel if not ws or sel.index(w) > sel.index(ws[-1])])
        if w is None:
            break
        ws.append(w)
    o = ctx.int("opt", 0, 4)
    c = IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=5)
    c.set_value(o)
    t = structure(kinds, ps, ws)
    t.nodes[-1].inputs = [opt(c.serialize_value())]
    m = manager()
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    return m, ps, ws


EDITS = ("none", "rename", "option", "move", "remove", "unwire", "morph", "add")


def edited(ctx, m, what):
    if what == "rename":
        ctx.check(call(m, "set_options", SetOptions.Request(node_id=str(U(1)), rename_node=True, new_name="other", inputs=[])).success, "rename")
    elif what == "option":
        ctx.check(call(m, "set_options", SetOptions.Request(node_id=str(U(1)), rename_node=False, new_name="", inputs=[opt("3")])).success, "options")
    elif what == "move":
        r = call(m, "move_node", MoveNode.Request(node_id=str(U(3)), parent_node_id=str(U(0)), new_child_index=0))
    elif what == "remove":
        r = call(m, "remove_node", RemoveNode.Request(node_id=str(U(2)), remove_children=True))
    elif what == "unwire":
        r = call(m, "unwire_data", WireNodeData.Request(wirings=m.wirings[:1]))
    elif what == "morph":
        r = call(m, "morph_node", MorphNode.Request(node_id=str(U(1)), new_node=nmsg("O", None, name="morphed")))
    elif what == "add":
        r = call(m, "add_node", AddNode.Request(parent_node_id=str(U(0)), node=nmsg("L", None, name="added")))


def part(ctx, kinds, edit):
    """get_subtree describes exactly the nodes below one node and how they are wired."""
    m, ps, ws = tree(ctx, kinds, nw=1 if edit else 2)
    if edit:
        edited(ctx, m, ctx.pick("edit", EDITS))
    known = {str(i): n for i, n in m.nodes.items()}
    target = ctx.pick("root", sorted(known) + [str(U(77)), "no-uuid", ""])
    before = snap(m)
    r = m.get_subtree(GetSubtree.Request(root_id=target), GetSubtree.Response())
    ctx.check(snap(m)["wirings"] == before["wirings"] and same(snap(m)["nodes"], before["nodes"]), "describing a part of a tree changes nothing")
    if target not in known:
        ctx.check(not r.success and len(r.error_message) > 0, "a part below no node is refused with a message")
        ctx.reach("refused")
        return
    ctx.check(r.success, "a part below a node of the tree can be described")
    t = r.subtree
    ids = order(m, known[target])
    ctx.check(t.root_id == target, "the root is the requested node")
    ctx.check(sorted(n.node_id for n in t.nodes) == sorted(ids), "a part has exactly the nodes below its root")
    for s in t.nodes:
        message(ctx, known[s.node_id], s, "part")
    inside = [w for w in before["wirings"] if w[0] in ids and w[2] in ids]
    ctx.check(sorted(wkey(w) for w in t.data_wirings) == inside, "a part has exactly the wirings between its nodes")
    pin = {(w[2], w[3]) for w in before["wirings"] if w[0] not in ids and w[2] in ids}
    pout = {(w[0], w[1]) for w in before["wirings"] if w[0] in ids and w[2] not in ids}
    ctx.check({(p.node_id, p.data_key) for p in t.public_inputs} == pin, "the public inputs of a part are those wired to nodes outside")
    ctx.check({(p.node_id, p.data_key) for p in t.public_outputs} == pout, "the public outputs of a part are those wired to nodes outside")
    if pin:
        ctx.reach("input")
    if pout:
        ctx.reach("output")
    if inside:
        ctx.reach("wiring")
    b = reload(ctx, t, "part")
    equal(ctx, m, b, ids, "part")
    ctx.check(snap(b)["wirings"] == inside, "a part keeps its wirings when it is loaded")


def generate(ctx, kinds, edit):
    """generate_subtree: the requested nodes and the nodes above them, as one tree."""
    m, ps, ws = tree(ctx, kinds, roots=False, nw=1)
    if edit:
        edited(ctx, m, ctx.pick("edit", EDITS))
    before = snap(m)
    nodes = before["nodes"]
    known = sorted(nodes)
    req = [i for i in known if ctx.bool("take" + str(known.index(i)))] + ctx.pick("more", [[], [str(U(77)), "no-uuid"] + known[:1]] if not edit else [[]])
    r = m.generate_subtree(GenerateSubtree.Request(node_ids=req), GenerateSubtree.Response())
    ctx.check(snap(m)["wirings"] == before["wirings"] and same(snap(m)["nodes"], before["nodes"]) and m.name == before["name"], "generating a subtree changes nothing")
    want = {i for i in req if i in nodes}
    above = set(want)
    for i in want:
        while nodes[i]["parent"] is not None:
            i = nodes[i]["parent"]
            above.add(i)
    if not r.success:
        ctx.check(len(r.error_message) > 0, "a refusal says why")
        ctx.check(want != above or sum(n["parent"] is None for n in nodes.values()) != 1, "nodes that form one tree together with their root can be taken out of a tree")
        ctx.reach("refused")
        return
    t = r.tree
    ids = [n.node_id for n in t.nodes]
    ctx.check(len(set(ids)) == len(ids) and want <= set(ids), "a generated subtree has every requested node")
    ctx.check(set(ids) <= above, "a generated subtree has no other nodes than the requested ones and those above them")
    for s in t.nodes:
        n = nodes[s.node_id]
        ctx.check(s.module + "." + s.node_class == n["class"] and s.name == n["name"], "the nodes of a generated subtree are those of the tree")
        ctx.check(list(s.child_ids) == [c for c in n["children"] if c in ids], "the nodes of a generated subtree have their children, in order")
    ctx.check(sum(1 for i in ids if nodes[i]["parent"] not in ids) == (1 if ids else 0), "a generated subtree is one tree")
    inside = [w for w in before["wirings"] if w[0] in ids and w[2] in ids]
    ctx.check(sorted(wkey(w) for w in t.data_wirings) == inside, "a generated subtree has exactly the wirings between its nodes")
    ctx.reach("tree" if ids else "empty")
    if ids:
        b = reload(ctx, t, "generated")
        equal(ctx, m, b, ids, "generated")


def whole(ctx, kinds):
    """The description of the whole tree after an edit, loaded elsewhere, is the tree."""
    m, ps, ws = tree(ctx, kinds)
    f = ctx.real("hz", 1, 100)
    edited(ctx, m, ctx.pick("edit", EDITS))
    call(m, "change_tree_name", ChangeTreeName.Request(name=ctx.pick("name", ["tree", "a: b\n"])))
    m.tick_frequency_hz = f
    t = copy.deepcopy(m.structure_to_msg())
    known = {str(i): n for i, n in m.nodes.items()}
    ctx.check(sorted(n.node_id for n in t.nodes) == sorted(known), "the description of a tree has exactly its nodes")
    for s in t.nodes:
        message(ctx, known[s.node_id], s, "tree")
    b = reload(ctx, t, "tree")
    equal(ctx, m, b, sorted(known), "tree")
    ctx.check(snap(b)["wirings"] == snap(m)["wirings"], "a tree keeps its wirings")
    ctx.check(b.name == m.name and b.tick_frequency_hz == f, "a tree keeps its name and its frequency")
    roots = [i for i, n in known.items() if n.parent is None]
    if len(roots) == 1:
        ctx.check(t.root_id == roots[0], "the description of a tree names its root")
        ctx.reach("root")
    ctx.reach("done")


def behave(ctx, steps):
    """A tree and the tree loaded from its description do the same."""
    c28.PLAN = p = Plan(ctx, {"tick": RSF})
    la, lb = [], []
    seq = ctx.pick("seq", [Sequence, MemorySequence, Fallback])
    deco = ctx.pick("deco", [Inverter, Repeat, Retry])
    num = {Repeat: "num_repeats", Retry: "num_retries"}.get(deco)
    ins = []
    if num:
        c = IntType(allow_dynamic=False, is_static=True, min_value=0)
        c.set_value(ctx.int("times", 0, 2))
        ins = [io(num, deco._node_config.inputs[num], c.serialize_value())]
    k = Constant
    t = TreeStructure(name="tree", nodes=[msg(seq, 1, "s", (2, 3, 4)), msg(SAdd, 2, "l0"), msg(deco, 3, "d", (5,), ins), msg(SAdd, 4, "l2"), msg(SAdd, 5, "l1")],
                      data_wirings=[wire(2, "w", 5, "v"), wire(5, "w", 4, "v")], tick_frequency_hz=10.0)
    a = manager()
    ctx.check(a.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    if ctx.bool("swap"):
        ctx.check(call(a, "move_node", MoveNode.Request(node_id=str(U(4)), parent_node_id=str(U(1)), new_child_index=0)).success, "a node can be moved within its parent")
    b = reload(ctx, a.structure_to_msg(), "tree")
    v = ctx.int("v", -99, 99)
    res = []
    for m, log in ((a, la), (b, lb)):
        p.log = log
        nodes = {n.name: n for n in m.nodes.values()}
        root = m.find_root().unwrap()
        ok(ctx, m.data_flow_manager.initialize(m.nodes, m.wirings), "initialize")
        ok(ctx, root.setup(), "setup")
        out = []
        for i in range(steps):
            for x in ("l0", "l1", "l2"):
                if not nodes[x].node_config.inputs["v"].has_value():
                    ok(ctx, nodes[x].node_config.inputs["v"].set_value(v), "set")
            out.append((val(root.tick()), [str(n.state) for _, n in sorted(nodes.items())], [cur(nodes[x].node_config.outputs["w"]) for x in ("l0", "l1", "l2")]))
        res.append(out)
    ctx.check(la == lb, "a tree and its description loaded elsewhere tick the same nodes")
    ctx.check(sym_and(*[sym_and(x[0] == y[0], same(x[2], y[2])) for x, y in zip(*res)]) and [x[1] for x in res[0]] == [y[1] for y in res[1]], "a tree and its description loaded elsewhere have the same results")
    ctx.reach("done")


def harnesses(tier):
    t = tier != "quick"
    hs = [H("node/" + k, node, dict(kind=k), "one node with 3 inputs and 2 outputs, option values symbolic, set or unset", reach=("done",)) for k in KINDS]
    hs.append(H("node/references", refs, {}, "4 referenced types, symbolic values, static or dynamic list", reach=("done",)))
    hs.append(H("node/extra", extra, {}, "0 to 2 inputs and outputs depending on an option", reach=("done",)))
    for i in range(4):
        hs.append(H("classes%d" % i, classes, dict(some=(i, 4)), "node classes of the package, number and truth value options symbolic", reach=("done",)))
    sets = SETS if t else SETS[:1]
    for k in sets:
        b = "every forest of the nodes %s, " % k
        hs.append(H("part/" + k, part, dict(kinds=k, edit=False), b + "up to 2 of 7 wirings, every node", reach=("input", "output", "wiring", "refused")))
    for k in sets if t else ["FFL", "FDL"]:
        b = "every forest of the nodes %s, " % k
        hs.append(H("part-edited/" + k, part, dict(kinds=k, edit=True), b + "up to 1 of 7 wirings, 8 edits before, every node", reach=("input", "output", "refused")))
        hs.append(H("whole/" + k, whole, dict(kinds=k), b + "up to 2 of 7 wirings, 8 edits before, any frequency 1..100", reach=("done", "root")))
    for k in SETS if t else ["FFFL"]:
        hs.append(H("generate/" + k, generate, dict(kinds=k, edit=False), "every tree of the 4 nodes %s, up to 1 of 7 wirings, every set of nodes" % k, reach=("tree", "empty") + (("refused",) if k == "FFFL" else ())))
    hs.append(H("generate-edited", generate, dict(kinds="FFFL" if t else "FFL", edit=True), "every tree of the nodes %s, up to 1 wiring, 8 edits before, every set of nodes" % ("FFFL" if t else "FFL"), reach=("tree", "empty")))
    hs.append(H("behave", behave, dict(steps=3 if t else 2), "a tree of 5 nodes (3 kinds of roots, 3 decorators, any attempts 0..2), %d ticks with every leaf result" % (3 if t else 2), reach=("done",)))
    return hs
