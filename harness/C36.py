"""A node that was reset, or shut down and set up again, behaves like one that was just set up.

Differential: the node with a history and a new node get the same inputs, children, answers and times; everything that can be seen of them has to agree."""
import types as _types

from harness.C22 import *
from harness.nodes import *
from harness.data import vmsg, vsrv
import ros_bt_py.nodes.random_number as RN
from ros_bt_py.nodes import compare, constant, file, format as fmt, getters, io, list as lst, maths, passthrough_node, setters
from ros_bt_py.ros_nodes import enum, message_converters, param, time, topic, wait, action
from ros_bt_py.data_types import DictType, RosServiceType, RosServiceName, RosActionType, RosActionName, RosTopicName, StringType, FloatType, PathType, RosContainer
from harness.C25 import Random
from vf_msgs.msg import Two, Enum
from vf_msgs.action import Mix

ASSUMPTIONS = ["between two calls the clock advances by whole eighths of a second", "the node with a history and the new node are given the same inputs in the same order"]


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class TwinLeaf(Leaf):
    """A child whose n-th tick since the start of a phase has the same result in both trees."""

    def plan(self, ctx, tag, results, log):
        self.ctx, self.tag, self.results, self.log, self.n, self.phase = ctx, tag, results, log, 0, "h"
        return self

    def _do_setup(self):
        return Ok(S.IDLE)

    def _do_tick(self):
        k = "%s.%s%d" % (self.tag, self.phase, self.n)
        self.n += 1
        if k not in self.results:
            self.results[k] = self.ctx.enum(k, RSF)
        r = self.results[k]
        self.log.append(("tick", self.tag, r))
        return Ok(r)

    def _do_untick(self):
        self.log.append(("untick", self.tag))
        return Ok(S.IDLE)

    def _do_reset(self):
        self.log.append(("reset", self.tag))
        return Ok(S.IDLE)

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


def fresh_list(v):
    """Every node gets its own lists and dicts."""
    if isinstance(v, list):
        return [fresh_list(x) for x in v]
    if isinstance(v, dict):
        return {k: fresh_list(x) for k, x in v.items()}
    if isinstance(v, Two):
        return Two(i=v.i, s=v.s)
    return v


class Side:
    """One of the two nodes with its children and what was seen of it."""

    def __init__(self, ctx, spec, results, no):
        self.ctx, self.spec, self.log, self.no, self.base = ctx, spec, [], no, 0
        self.n = spec["make"](ctx, no)
        self.kids = []
        for i in range(spec.get("kids", 0)):
            k = TwinLeaf(node_id=U(100 * no + i), name="AB"[i]).plan(ctx, "k%d" % i, results, self.log)
            ok(ctx, self.n.add_child(k), "add_child")
            self.kids.append(k)

    def give(self, values):
        for k, v in values.items():
            put(self.ctx, self.n, k, fresh_list(v))

    def begin(self):
        w = stubs.world()
        del self.log[:]
        for k in self.kids:
            k.n, k.phase = 0, "f"
        self.mark = (len(w.calls), len(w.published))
        if self.no == 2 and self.spec.get("base"):
            self.base = len(getattr(w, self.spec["base"]))
        if self.spec.get("init"):
            self.spec["init"]()

    def seen(self):
        """Everything that can be seen of the node after a call."""
        w = stubs.world()
        outs = {}
        for k, c in self.n.node_config.outputs.items():
            v = c.get_value()
            outs[k] = (c.is_updated(), UNSET if v.is_err() else _plain(v.unwrap()))
        calls = [(c.srv_name, _plain(q)) for c, q, _ in w.calls[self.mark[0]:]]
        pubs = [_plain(m) for t, m in w.published[self.mark[1]:] if t != "log"]
        return [self.n.state, sorted(outs), [outs[k] for k in sorted(outs)], list(self.log), [k.state for k in self.kids], calls, pubs]


def _plain(v):
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if hasattr(type(v), "__slots__") and hasattr(v, "get_fields_and_field_types"):
        return [_plain(getattr(v, f)) for f in v.get_fields_and_field_types()]
    return v


def call(ctx, side, op):
    if op == "restart":
        a = val(side.n.shutdown())
        return [a, val(side.n.setup())]
    return [val(getattr(side.n, op)())]


def twin(ctx, spec, hist, follow, end, ops=("tick", "untick", "reset", "restart"), then=("tick", "untick")):
    w = stubs.world()
    w.now_ns = t0 = ctx.int("t0", 0, 1 << 20) * (SEC // 8)
    saved = RN.random
    results = {}
    spec = spec()
    try:
        a = Side(ctx, spec, results, 1)
        a.mark = (0, 0)
        RN.random = Random(ctx)
        if spec.get("init"):
            spec["init"]()
        ok(ctx, a.n.setup(), "setup")
        for i in range(hist):
            op = ctx.pick("op%d" % i, ops) if i else "tick"
            if op == "tick":
                a.give(spec["feed"](ctx, "h%d" % i))
            w.now_ns += ctx.int("hd%d" % i, 0, 1 << 10) * (SEC // 8)
            r = call(ctx, a, op)
            if ERR in r:
                ctx.check(a.n.state == S.BROKEN, "a node that fails is broken")
                ctx.assume(end == "restart")
                break
            if "react" in spec and op == "tick" and ctx.pick("answer%d" % i, (False, True)):
                spec["react"](ctx, a, ctx.int("av%d" % i, -9, 9))
        # from here on the node has to behave like a new one
        if end == "reset":
            ctx.check(val(a.n.reset()) == S.IDLE, "a node can be reset and is idle then")
        else:
            ctx.check(val(a.n.shutdown()) == S.SHUTDOWN, "a node can be shut down")
            ctx.check(val(a.n.setup()) == S.IDLE, "a node that was shut down can be set up again")
        t1 = w.now_ns
        plan = []
        for j in range(follow):
            plan.append((ctx.pick("then%d" % j, then) if j else "tick", ctx.int("fd%d" % j, 0, 1 << 10) * (SEC // 8), spec["feed"](ctx, "f%d" % j) if j == 0 or ctx.pick("new%d" % j, (True, False)) else {},
                         "react" in spec and ctx.pick("reply%d" % j, (False, True)), ctx.int("rv%d" % j, -9, 9) if "react" in spec else None))
        b = Side(ctx, spec, results, 2)
        b.mark = (len(w.calls), len(w.published))
        ok(ctx, b.n.setup(), "setup")
        if end == "reset":
            # a reset node keeps its inputs
            for k, c in a.n.node_config.inputs.items():
                if not c.is_static and c.has_value():
                    put(ctx, b.n, k, fresh_list(c.get_value().unwrap()))
        traces = []
        for side in (a, b):
            w.now_ns = t1
            RN.random = Random2(ctx, results)
            side.begin()
            trace = [side.seen()]
            for j, (op, dt, values, reply, rv) in enumerate(plan):
                w.now_ns += dt
                if op == "tick":
                    side.give(values)
                r = call(ctx, side, op)
                trace.append([r, side.seen()])
                if ERR in r:
                    break
                if reply:
                    spec["react"](ctx, side, rv)
            traces.append(trace)
        what = "a node that was reset behaves like a new one" if end == "reset" else "a node that was shut down and set up again behaves like a new one"
        ctx.check(len(traces[0]) == len(traces[1]), what)
        for x, y in zip(*traces):
            ctx.check(sym_deep_eq(x, y), what)
        ctx.reach("compared")
    finally:
        RN.random = saved


class Random2:
    """The same numbers in both trees."""

    def __init__(self, ctx, results):
        self.ctx, self.results, self.n = ctx, results, 0

    def _num(self, a, b):
        k = "rnd%d" % self.n
        self.n += 1
        if k not in self.results:
            self.results[k] = self.ctx.int(k, -(1 << 63), 1 << 63)
            self.ctx.assume(sym_and(self.results[k] >= a, self.results[k] <= b))
        return self.results[k]

    def randint(self, a, b):
        return self._num(a, b)

    def randrange(self, a, b):
        return self._num(a, b - 1)


def ilist(ctx, name, n=2):
    return ([ctx.int(name, -9, 9)] + [7] * n)[:n]


def leaf(cls, types=None, static=None, **feed):
    """The description of a node whose inputs are fed by functions (ctx, name) -> value."""
    def spec():
        return {"make": lambda ctx, no: make(ctx, cls, types, static, node_id=no), "kids": cls._node_config.max_children or 0,
                "feed": lambda ctx, name: {k: f(ctx, name + "." + k) for k, f in feed.items()}}
    return spec


def num(lo=-9, hi=9):
    return lambda ctx, n: ctx.int(n, lo, hi)


def text(*opts):
    return lambda ctx, n: ctx.pick(n, opts)


def lists(ctx, n):
    return ilist(ctx, n)


def dicts(ctx, n):
    return {"x": ctx.int(n + ".x", -9, 9), "y": 3}


def two(ctx, n):
    return Two(i=ctx.int(n + ".i", -9, 9), s="t")


flag = lambda ctx, n: ctx.bool(n)  # noqa: E731

def fields(ctx, no):
    new = {"i": field("int32"), "s": field("string")}
    return message_converters.FieldsToMessage(node_id=U(no), name="n%d" % no, ros_node=rclpy.node.Node("n"), new_inputs=dict(new, output_type=RosTopicType(value=Two)))


def svc(ctx, no):
    return Service(node_id=U(no), name="s%d" % no, ros_node=rclpy.node.Node("n"),
                   new_inputs={"service_type": RosServiceType(value=Ask, interface_id=1), "wait_for_response_seconds": FloatType(value=2.0, allow_dynamic=False),
                               "service_name": RosServiceName(interface_id=1, is_static=False), "a": field("int32"), "q": field("string")})


def wfs(ctx, no):
    return WaitForService(node_id=U(no), name="w%d" % no, ros_node=rclpy.node.Node("n"),
                          new_inputs={"service_type": RosServiceType(value=Ask, interface_id=1), "wait_for_service_seconds": FloatType(value=2.0, allow_dynamic=False), "service_name": RosServiceName(interface_id=1, is_static=False)})


def act(ctx, no):
    return action.Action(node_id=U(no), name="a%d" % no, ros_node=rclpy.node.Node("n"),
                         new_inputs={"action_type": RosActionType(value=Mix, interface_id=1), "timeout_seconds": FloatType(value=2.0, allow_dynamic=False), "action_name": RosActionName(interface_id=1, is_static=False),
                                     "order": field("int32"), "tag": field("string")})


def sub(cls, **more):
    def mk(ctx, no):
        new = {"topic_type": RosTopicType(value=Two, interface_id=1), "topic_name": RosTopicName(interface_id=1, is_static=False), "reliable": BoolType(is_static=False),
               "transient_local": BoolType(is_static=False), "depth": IntType(min_value=0, is_static=False)}
        new.update({k: f() for k, f in more.items()})
        for c in new.values():
            if isinstance(c, ReferenceContainer):
                ok(ctx, c.set_type_map(new), "set_type_map")
        return cls(node_id=U(no), name="t%d" % no, ros_node=rclpy.node.Node("n"), new_inputs=new)
    return mk


def reference():
    from ros_bt_py.data_types import ReferenceType
    return ReferenceType(reference="topic_type", is_static=False)


def answer(ctx, side, v):
    """The service answers the last open request."""
    for c, q, f in stubs.world().calls[side.base:][-1:]:
        if not f.done() and not f.cancelled():
            f.set_result(Ask.Response(total=v, why="w"))


def server(ctx, side, v):
    """The action server takes the next step with the last goal."""
    for g in stubs.world().goals[side.base:][-1:]:
        if not g["future"].done():
            g["accepted"] = True
            g["future"].set_result(stubs.GoalHandle(g))
        elif g["result_futures"] and not g["result_futures"][-1].done():
            g["result_futures"][-1].set_result(_types.SimpleNamespace(status=4, result=Mix.Result(final=v)))


def deliver(ctx, side, v):
    for x in stubs.world().subs[side.base:]:
        if not x.destroyed:
            x.callback(Two(i=v, s="m"))


def offer_service(ctx, side, v):
    side.offered = v
    stubs.world().service_ready = lambda c: v > 0


def offer_param(ctx, side, v):
    stubs.world().params["p"] = v


def ros(mk, react=None, base=None, init=None, **feed):
    def spec():
        d = {"make": mk, "kids": 0, "feed": lambda ctx, name: {k: f(ctx, name + "." + k) for k, f in feed.items()}}
        if react:
            d["react"] = react
        d["base"] = base
        d["init"] = init
        return d
    return spec


def const(v):
    return lambda ctx, n: v


def once(a, b):
    """One value in the history, another one afterwards."""
    return lambda ctx, n: a if n[0] == "h" else b


def no_service():
    stubs.world().service_ready = lambda c: False


def no_param():
    stubs.world().params.clear()


SUBS = dict(topic_name=text("/t0", "/t1"), reliable=const(True), transient_local=const(False), depth=const(3))
LEAVES = {
    "Compare": leaf(compare.Compare, {"compare_type": int}, a=num(), b=once(3, 4)),
    "CompareNewOnly": leaf(compare.CompareNewOnly, {"compare_type": int}, a=num(), b=once(3, 4)),
    "ALessThanB": leaf(compare.ALessThanB, {"operand_type": int}, a=num(), b=once(3, 4)),
    "IOInput": leaf(io.IOInput, {"io_type": int}, **{"in": num()}),
    "IOOutput": leaf(io.IOOutput, {"io_type": int}, **{"in": num()}),
    "PassthroughNode": leaf(passthrough_node.PassthroughNode, {"passthrough_type": int}, **{"in": num()}),
    "StringConcatenation": leaf(fmt.StringConcatenation, a=lambda c, n: c.str(n, 2), b=once("", "b")),
    "FormatString": leaf(fmt.FormatString, format_string=text("{x}", "{z}"), dict=const({"x": 5})),
    "FormatStringList": leaf(fmt.FormatStringList, format_strings=lambda c, n: [c.pick(n, ("{x}", "{z}")), "k"], dict=const({"x": 5})),
    "GetFileExtension": leaf(fmt.GetFileExtension, path=text("/a/b.c", "d")),
    "ListLength": leaf(lst.ListLength, {"element_type": int}, list=lambda c, n: ilist(c, n, 1 if n[0] == "h" else 2)),
    "InsertInList": leaf(lst.InsertInList, {"element_type": int}, list=const([1, 2]), index=num(0, 2), element=once(5, 6)),
    "IsInList": leaf(lst.IsInList, {"compare_type": int}, **{"list": const([1, 2]), "in": num()}),
    "Convert": leaf(maths.Convert, {"input_type": int, "output_type": int}, **{"in": num()}),
    "Operation": leaf(maths.Operation, {"operand_type": int}, operator=once("add", "floordiv"), a=num(), b=text(0, 2)),
    "UnaryOperation": leaf(maths.UnaryOperation, {"operand_type": int}, operator=once("neg", "inv"), **{"in": num()}),
    "RandomInt": leaf(RN.RandomInt, min=num(), max=once(5, 4)),
    "AppendListItem": leaf(setters.AppendListItem, {"list_type": int}, list=once([1], [2, 3]), value=num()),
    "SetDictItem": leaf(setters.SetDictItem, {"attr_type": int}, attr_name=text("x", "z"), object=const({"x": 1}), attr_value=num()),
    "SetAttr": leaf(setters.SetAttr, {"object_type": Two, "attr_type": int}, attr_name=text("i"), object=two, attr_value=once(5, 6)),
    "GetTimeNow": leaf(time.GetTimeNow),
    "Wait": leaf(wait.Wait, static={"seconds_to_wait": 2.0}),
    "MessageToFields": leaf(message_converters.MessageToFields, {"input_type": Two}, **{"in": two}),
    "FieldsToMessage": ros(fields, i=num(), s=const("u")),
    "EnumFields": leaf(enum.EnumFields, {"ros_message_type": Enum}),
    "RosParam": ros(lambda ctx, no: make(ctx, param.RosParam, {"param_type": int}, node_id=no), offer_param, init=no_param, param_name=text("p", "q"), default_value=const(3)),
    "Service": ros(svc, answer, "calls", service_name=text("/a", "/b"), a=once(1, 2), q=const("q")),
    "WaitForService": ros(wfs, offer_service, init=no_service, service_name=text("/a", "/b")),
    "Action": ros(act, server, "goals", action_name=text("/a", "/b"), order=once(1, 2), tag=const("t")),
    "TopicSubscriber": ros(sub(topic.TopicSubscriber), deliver, "subs", **SUBS),
    "TopicMemorySubscriber": ros(sub(topic.TopicMemorySubscriber, memory_delay=lambda: FloatType(value=2.0, allow_dynamic=False)), deliver, "subs", **SUBS),
    "TopicPublisher": ros(sub(topic.TopicPublisher, message=reference), message=two, **SUBS),
}
GETTERS = {
    "GetListItem": leaf(getters.GetListItem, {"list_type": int}, list=once([1, 2], [3, 4]), index=num(0, 2)),
    "GetDictItem": leaf(getters.GetDictItem, {"value_type": int}, dict=once({"x": 1}, {"x": 2, "y": 3}), key=text("x", "z")),
    "GetMultipleDictItems": leaf(getters.GetMultipleDictItems, {"value_type": int}, dict=once({"x": 1, "y": 1}, {"x": 2, "y": 3}), keys=lambda c, n: ["x", c.pick(n, ("y", "z"))]),
    "GetAttr": leaf(getters.GetAttr, {"object_type": Two, "attr_type": int}, object=two, attr_name=text("i")),
    "IterateList": leaf(lst.IterateList, {"item_type": int}, list=once([1, 2], [3, 4])),
}


def inner(name):
    def feed(ctx, tag):
        if name == "RepeatNoAutoReset":
            return {"reset": ctx.bool(tag + ".reset")}
        if name == "Watch":
            return {"watch": ctx.pick(tag + ".w", ("w", "v"))}
        if name == "NameSwitch":
            return {"name": ctx.pick(tag + ".n", ("A", "B", "Z"))}
        if name == "EnumSwitch":
            return {"case": ctx.int(tag + ".c", 0, 2)}
        return {}
    return lambda: {"make": lambda ctx, no: make_inner(ctx, name, nid=U(no)), "kids": 1 if name not in FLOW or name.startswith("Parallel") else 2, "feed": feed}


def harnesses(tier):
    t = tier == "thorough"
    out = []
    for group, h, f in ((LEAVES, 2, 2), (GETTERS, 2, 2), ({n: inner(n) for n in list(FLOW) + list(DECO)}, 2, 2)):
        for name, spec in group.items():
            for end in ("reset", "restart"):
                if end == "reset" and name in ("RepeatNoAutoReset", "Throttle"):
                    continue  # the first is documented to keep its count; whether a Throttle keeps its result is left open (see C21)
                out.append(H("%s/%s" % (end, name), twin, dict(spec=spec, hist=h + (1 if t else 0), follow=f + (1 if t else 0), end=end),
                             "histories of %d calls (tick/untick/reset/shutdown+setup), then %d calls (tick/untick) of both nodes" % (h + t, f + t), reach=("compared",), real_floats=name in ("Wait", "Throttle", "ThrottleSuccess", "TopicMemorySubscriber", "Service", "WaitForService", "Action")))
    return out
