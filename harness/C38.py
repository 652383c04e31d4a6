"""Node classes and nodes: the inputs and outputs that were declared, and none of them shared between nodes."""
import abc
import copy

from harness.common import *
from ros_bt_py.data_types import BoolType, IntType, FloatType, StringType, ListType, DictType, GenericType, ReferenceType, ReferenceListType, GENERIC_TYPE_MAP
from ros_bt_py.node import Node
from ros_bt_py.exceptions import NodeConfigError
from ros_bt_py_interfaces.msg import NodeStructure
import rclpy.node

ASSUMPTIONS = ["node classes are defined once and at run time, by the decorator"]


class Quiet:
    """The operations of a node that does nothing."""

    def _do_setup(self):
        return Ok(S.IDLE)

    def _do_tick(self):
        return Ok(S.SUCCEEDED)

    def _do_untick(self):
        return Ok(S.IDLE)

    def _do_reset(self):
        return Ok(S.IDLE)

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


@define_bt_node(NodeConfig(
    inputs={"n": IntType(allow_static=False), "k": IntType(allow_dynamic=False, value=7), "l": ListType(element_type=IntType(), allow_static=False),
            "d": DictType(element_type=IntType(), allow_static=False), "t": GenericType(allow_dynamic=False), "r": ReferenceType(reference="t", allow_static=False)},
    outputs={"o": IntType(), "ol": ListType(element_type=IntType()), "x": ReferenceType(reference="t")}, max_children=0))
class Twin(Quiet, Leaf):
    def _do_tick(self):
        for k, v in self.put.items():
            self.outputs.set_value(k, v)
        return Ok(S.SUCCEEDED)


def look(c):
    v = c.get_value()
    return [c.has_value(), None if v.is_err() else copy.deepcopy(v.unwrap()), c.is_updated()]


def picture(n):
    cfg = n.node_config
    return [n.state, n.name, len(n.children), {k: look(c) for k, c in cfg.inputs.items()}, {k: look(c) for k, c in cfg.outputs.items()}]


def option(t):
    return GenericType(allow_dynamic=False, value=GENERIC_TYPE_MAP[t])


def instances(ctx, n, ops, start):
    """What happens to one node changes neither another one nor the nodes made later."""
    def template():
        return {k: look(c) for part in (Twin._node_config.inputs, Twin._node_config.outputs) for k, c in part.items()}
    before = template()
    types = [int, str]
    first = picture(Twin(node_id=U(8), name="fresh", new_inputs={"t": option(int)}))
    nodes = []
    for i in (0, 1):
        new = {"t": option(types[i])}
        kv = ctx.int("k%d" % i, -9, 9)
        if i:
            new["k"] = IntType(allow_dynamic=False, value=kv)
        else:
            kv = 7
        x = Twin(node_id=U(i + 1), name="n%d" % i, new_inputs=new)
        x.put = {}
        ctx.check(x.node_config.inputs["k"].get_value().unwrap() == kv, "a node has the option it was given, or the declared one")
        nodes.append(x)
    for i in range(n):
        who = ctx.pick("who%d" % i, [0, 1])
        a, b = nodes[who], nodes[1 - who]
        other = picture(b)
        op = ctx.pick("op%d" % i, ops) if i else start
        v = ctx.int("v%d" % i, -9, 9)
        ins = a.node_config.inputs
        if op == "numbers":
            ok(ctx, ins["n"].set_value(v), "set")
            ctx.check(ins["n"].get_value().unwrap() == v, "a node has the value it was given")
        elif op == "lists":
            li, di = [v], {"a": v}
            ok(ctx, ins["l"].set_value(li), "set")
            ok(ctx, ins["d"].set_value(di), "set")
            ctx.check(sym_deep_eq(ins["l"].get_value().unwrap(), [v]) and sym_deep_eq(ins["d"].get_value().unwrap(), {"a": v}), "a node has the value it was given")
        elif op == "reference":
            w = v if types[who] is int else "w"
            ok(ctx, ins["r"].set_value(w), "set")
            ctx.check(rejected(lambda: ins["r"].set_value("w" if types[who] is int else v)), "a reference takes values of the type chosen for its own node only")
            ctx.check(ins["r"].get_value().unwrap() == w, "a node has the value it was given")
        elif op == "run":
            for k, q in (("n", v), ("l", [v]), ("d", {}), ("r", v if types[who] is int else "w")):
                if not ins[k].has_value():
                    ok(ctx, ins[k].set_value(q), "set")
            a.put = {"o": v, "ol": [v, v], "x": v if types[who] is int else "w"}
            if a.state in (S.UNINITIALIZED, S.SHUTDOWN):
                ok(ctx, a.setup(), "setup")
                for k, q in (("n", v), ("l", [v]), ("d", {}), ("r", v if types[who] is int else "w")):
                    ok(ctx, ins[k].set_value(q), "set")
            ok(ctx, a.tick(), "tick")
            ctx.check(sym_deep_eq(a.node_config.outputs["ol"].get_value().unwrap(), [v, v]), "a node has the outputs it wrote")
        else:
            ctx.assume(op == "shutdown" or a.state not in (S.UNINITIALIZED, S.SHUTDOWN))
            ok(ctx, getattr(a, op)(), op)
        ctx.check(sym_deep_eq(other, picture(b)), "what happens to a node doesn't change another node of its class")
        ctx.reach(op)
    fresh = Twin(node_id=U(9), name="fresh", new_inputs={"t": option(int)})
    ctx.check(fresh.state == S.UNINITIALIZED and fresh.node_config.inputs["k"].get_value().unwrap() == 7, "a new node is as declared")
    ctx.check(sym_deep_eq(first, picture(fresh)), "a new node is like one that was made before the others were used")
    ctx.check(sym_deep_eq(before, template()), "using nodes doesn't change their class")


def cleanup(names):
    mod = Node.node_classes.get(__name__, {})
    for n in names:
        mod.pop(n, None)


def inherit(ctx, bases):
    """A class has its own inputs and outputs and those of its bases, or isn't registered."""
    made, keys = [], ["a", "b"]
    nb = bases
    have, outs, maxc = {}, {}, {}
    try:
        classes = []
        for i in range(nb + 1):
            have[i] = [k for k in keys if ctx.pick("in%d%s" % (i, k), [True, False])]
            outs[i] = [k for k in keys[:1] if ctx.pick("out%d%s" % (i, k), [True, False])]
            maxc[i] = 0 if i < nb else ctx.pick("max", [0, 1, None])
            name = "VfMade%d" % i
            made.append(name)
            cfg = NodeConfig(inputs={k: IntType(max_value=10 * i + 5) for k in have[i]}, outputs={"o" + k: IntType(max_value=10 * i + 5) for k in outs[i]}, max_children=maxc[i])
            cls = type(name, tuple(classes) if i == nb and classes else (Quiet, Leaf), {"__module__": __name__})
            define_bt_node(cfg)(cls)
            if i < nb:
                classes.append(cls)
                ctx.check(Node.node_classes[__name__].get(name) is cls, "a well defined class is registered")
        good = maxc[nb] == 0
        for k in keys:
            good = good and sum(k in have[i] for i in range(nb + 1)) < 2
        good = good and sum("a" in outs[i] for i in range(nb + 1)) < 2
        ctx.check((Node.node_classes[__name__].get(name) is cls) == good, "a class is registered iff its inputs, outputs and number of children fit those of its bases")
        if not good:
            r = Node.from_msg(NodeStructure(node_id=str(U(3)), module=__name__, node_class=name, name="x", max_children=0), rclpy.node.Node("n"))
            ctx.check(r.is_err(), "nodes of a class that isn't registered can't be made from messages")
            ctx.reach("bad")
            return
        ctx.reach("good")
        n = cls(node_id=U(1), name="x")
        ctx.check(set(n.node_config.inputs) == {k for i in have for k in have[i]}, "a node has the inputs of its class and of all base classes")
        ctx.check(set(n.node_config.outputs) == {"o" + k for i in outs for k in outs[i]}, "a node has the outputs of its class and of all base classes")
        v = ctx.int("v", 0, 99)
        for i in have:
            for k in have[i]:
                r = n.node_config.inputs[k].set_value(v)
                ctx.check(r.is_ok() == bool(v <= 10 * i + 5), "every input has the limits of the class that declares it")
            for k in outs[i]:
                c = n.node_config.outputs["o" + k]
                ctx.check(c.set_value(v).is_ok() == bool(v <= 10 * i + 5), "every output has the limits of the class that declares it")
                ctx.check(c.allow_dynamic and not c.allow_static and not c.is_static, "outputs are dynamic")
        for i, b in enumerate(classes):
            m = b(node_id=U(2), name="y")
            ctx.check(set(m.node_config.inputs) == set(have[i]), "a derived class adds nothing to its bases")
    finally:
        cleanup(made)


def twice(ctx):
    """The first definition of a name stays, abstract classes are no nodes but hand on what they declare."""
    made = ["VfTwice", "VfAbstract"]
    try:
        def define(name, base, key, **more):
            cls = abc.ABCMeta(name, (base,) if issubclass(base, Quiet) else (Quiet, base), dict(more, __module__=__name__))
            return define_bt_node(NodeConfig(inputs={key: IntType()}, outputs={}, max_children=0))(cls)
        if ctx.pick("how", ["twice", "abstract"]) == "twice":
            a = define("VfTwice", Leaf, "a")
            b = define("VfTwice", Leaf, "b")
            ctx.check(Node.node_classes[__name__]["VfTwice"] is a and a is not b, "the first class of a name stays registered")
            r = Node.from_msg(NodeStructure(node_id=str(U(3)), module=__name__, node_class="VfTwice", name="x", max_children=0), rclpy.node.Node("n"))
            ctx.check(r.is_ok() and set(r.unwrap().node_config.inputs) == {"a"}, "nodes are made of the class that is registered")
        else:
            a = define("VfAbstract", Leaf, "a", todo=abc.abstractmethod(lambda self: None))
            ctx.check("VfAbstract" not in Node.node_classes.get(__name__, {}), "abstract classes aren't registered")
            b = define("VfTwice", a, "b", todo=lambda self: None)
            ctx.check(Node.node_classes[__name__].get("VfTwice") is b, "a complete class with an abstract base is registered")
            ctx.check(set(b(node_id=U(1), name="x").node_config.inputs) == {"a", "b"}, "a class has the inputs of its abstract bases")
        ctx.reach("done")
    finally:
        cleanup(made)


@define_bt_node(NodeConfig(inputs={"n": IntType(min_value=0, max_value=10), "t": GenericType(allow_dynamic=False), "r": ReferenceType(reference="t"), "c": IntType(allow_dynamic=False)},
                           outputs={"o": ReferenceType(reference="t"), "ol": ReferenceListType(reference="t")}, max_children=0))
class Extra(Quiet, Leaf):
    clash = None

    def add_extra_inputs(self):
        if self.clash == "error":
            return Err(NodeConfigError("extra"))
        d = {"x%d" % i: IntType(max_value=5) for i in range(self.inputs.get_value_as("c", int).unwrap_or(0))}
        if self.clash == "in":
            d["n"] = IntType()
        return Ok(d)

    def add_extra_outputs(self):
        d = {"y": IntType(max_value=5)}
        if self.clash == "out":
            d["o"] = IntType()
        return Ok(d)


def override(ctx, extras):
    """Given inputs replace declared ones if they fit, everything else is refused."""
    t = ctx.pick("t", [int, str])
    new, bad = {"t": option(t), "c": IntType(allow_dynamic=False, value=extras)}, False
    lo, hi = ctx.int("lo", -5, 15), ctx.int("hi", -5, 15)
    ctx.assume(lo <= hi)
    n = ctx.pick("n", ["-", "int", "text", "float"])
    if n != "-":
        new["n"] = {"int": lambda: IntType(min_value=lo, max_value=hi, is_static=False), "text": lambda: StringType(is_static=False), "float": lambda: FloatType(min_value=0.0, max_value=10.0, is_static=False)}[n]()
        bad = n != "int" or bool(sym_or(lo < 0, hi > 10))
    x = ctx.pick("x", ["-", "x0", "x1", "z", "o", "static c"])
    if x == "static c":
        new["c"] = IntType(is_static=True, allow_dynamic=True, value=extras)
    elif x != "-":
        top = ctx.int("top", 0, 9)
        new[x] = IntType(max_value=top, is_static=False)
        bad = bad or x not in ["x%d" % i for i in range(extras)] or bool(top > 5)
    Extra.clash = ctx.pick("clash", [None, "in", "out", "error"])
    bad = bad or Extra.clash is not None
    try:
        node = Extra(node_id=U(1), name="e", new_inputs=new)
    except NodeConfigError:
        ctx.check(bad, "a node with fitting inputs can be made")
        ctx.reach("refused")
        return
    finally:
        Extra.clash = None
    ctx.check(not bad, "unknown or unfitting inputs are refused")
    ins, outs = node.node_config.inputs, node.node_config.outputs
    ctx.check(set(ins) == {"n", "t", "r", "c"} | {"x%d" % i for i in range(extras)} and set(outs) == {"o", "ol", "y"}, "a node has the declared inputs and outputs and the additional ones")
    v = ctx.int("v", -9, 20)
    if n == "int":
        ctx.check(ins["n"].set_value(v).is_ok() == bool(sym_and(v >= lo, v <= hi)), "given inputs have their own limits")
    for c in (outs["o"],):
        ctx.check(not rejected(lambda: c.set_value(v if t is int else "w")), "references follow the type that was chosen for this node")
        ctx.check(rejected(lambda: c.set_value("w" if t is int else v)), "references follow the type that was chosen for this node")
    ctx.check(not rejected(lambda: outs["ol"].set_value([v] if t is int else ["w"])) and rejected(lambda: outs["ol"].set_value(["w"] if t is int else [v])), "references in lists follow the type that was chosen")
    for k, c in [("y", outs["y"])] + [("x%d" % i, ins["x%d" % i]) for i in range(extras)]:
        ctx.check(c.set_value(v).is_ok() == bool(v <= (top if k == x else 5)), "additional inputs and outputs have their declared limits")
    ctx.reach("made")


def harnesses(tier):
    t = tier == "thorough"
    ops = ["numbers", "lists", "reference", "run", "reset", "shutdown"]
    k = 4 if t else 3
    hs = [H("instances/" + o, instances, dict(n=k, ops=ops, start=o), "two nodes of a class, %d operations, the first one %s" % (k, o), reach=("numbers", "lists", "reference", "run", "shutdown"), max_paths=200000) for o in ops if o != "reset"]
    for b in range(0, 3):
        hs.append(H("inherit/%d" % b, inherit, dict(bases=b), "a class with %d bases, any two inputs and one output each" % b, reach=("good", "bad"), max_paths=200000))
    hs.append(H("twice", twice, {}, "two definitions of a name, an abstract base", reach=("done",)))
    for e in (0, 1, 2):
        hs.append(H("override/%d" % e, override, dict(extras=e), "any limits of a given input, %d additional inputs" % e, reach=("made", "refused"), max_paths=200000))
    return hs
