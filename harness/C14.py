"""Data flow: what a tick writes to an output arrives at every wired input, and nowhere else."""
import copy
from harness.data import *
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces.msg import Wiring, NodeDataLocation

INTS = dict(inputs={"p": IntType(allow_static=False), "q": IntType(allow_static=False), "s": IntType(is_static=True, allow_dynamic=False)},
            outputs={"x": IntType(), "y": IntType()}, max_children=None)


class FlowBase:
    """A node whose tick writes solver-chosen outputs."""

    def plan(self, ctx, tag, log=None, only=None):
        self.ctx, self.tag, self.n, self.wrote, self.only, self.seen = ctx, tag, 0, {}, only, None
        return self

    def _do_setup(self):
        return Ok(S.IDLE)

    def _do_tick(self):
        self.seen = {k: (cur(c), c.is_updated()) for k, c in self.node_config.inputs.items()}
        self.wrote = {}
        for c in self.children:
            r = c.tick()
            if r.is_err():
                return r
        for k in self.node_config.outputs:
            t = "%s.%s%d" % (self.tag, k, self.n)
            if self.only is not None and k not in self.only:
                continue
            if self.ctx.bool(t + "?"):
                v = self.ctx.int(t, -4, 9)
                if self.outputs.set_value(k, v).is_err():
                    return Err(BehaviorTreeException("output"))
                self.wrote[k] = v
        self.n += 1
        return Ok(SU)

    def _do_untick(self):
        return Ok(S.IDLE)

    def _do_reset(self):
        return Ok(S.IDLE)

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


@define_bt_node(NodeConfig(**INTS))
class FlowNode(FlowBase, FlowControl):
    pass


@define_bt_node(NodeConfig(inputs={"p": IntType(allow_static=False, min_value=0, max_value=5), "q": IntType(allow_static=False), "s": IntType(is_static=True, allow_dynamic=False)},
                           outputs={"x": IntType(), "y": IntType()}, max_children=None))
class NarrowNode(FlowBase, FlowControl):
    pass


def loc(n, k):
    return NodeDataLocation(node_id=uuid_to_ros(n if isinstance(n, uuid.UUID) else n.node_id), data_key=k)


def wire(a, ka, b, kb):
    return Wiring(source=loc(a, ka), target=loc(b, kb))


def tree(ctx, n, cls=(FlowNode,) * 9, dfm=None, only=None):
    dfm = dfm if dfm is not None else DataFlowManager(incoming_data={}, outgoing_data={})
    nodes = [cls[i](node_id=U(i), name="n%d" % i, data_flow_manager=dfm).plan(ctx, "n%d" % i, only=only) for i in range(n)]
    return dfm, nodes


def start(ctx, dfm, nodes, wirings):
    ok(ctx, dfm.initialize({n.node_id: n for n in nodes}, wirings), "initialize with valid wirings")
    for n in nodes:
        ok(ctx, n.setup(), "setup")


def fill(ctx, nodes):
    """every dynamic input gets a value, so that the node can tick"""
    m = {}
    for i, n in enumerate(nodes):
        for k in ("p", "q"):
            v = ctx.int("in%d%s" % (i, k), 0, 5)
            ok(ctx, n.node_config.inputs[k].set_value(v), "set input")
            m[i, k] = v
        m[i, "s"] = cur(n.node_config.inputs["s"])
    return m


WIRES = [(0, "x", 1, "p"), (0, "x", 2, "p"), (0, "y", 2, "q"), (1, "x", 2, "p"), (2, "y", 0, "q"), (1, "y", 1, "q"), (0, "x", 0, "p")]


def deliver(ctx, steps, nwires):
    """Any wirings between three nodes, any order of ticks, any writes."""
    dfm, nodes = tree(ctx, 3, only=("x",) if nwires < 2 else None)
    ws = []
    for j in range(nwires):
        w = ctx.pick("w%d" % j, [w for w in WIRES if nwires > 1 or w[1] == "x"])
        if ws and (WIRES.index(w) <= WIRES.index(ws[-1]) or any(w[2:] == v[2:] and w[0] == v[0] for v in ws)):
            return
        ws.append(w)
    start(ctx, dfm, nodes, [wire(nodes[a], ka, nodes[b], kb) for a, ka, b, kb in ws])
    m = fill(ctx, nodes)
    fresh = {k: True for k in m}
    out = {}
    for s in range(steps):
        i = ctx.pick("t%d" % s, sorted({w[0] for w in ws} | {ws[0][2]}))
        n = nodes[i]
        r = n.tick()
        ctx.check(val(r) == SU, "a tick with valid wirings succeeds")
        for k in ("p", "q", "s"):
            ctx.check(same(n.seen[k][0], m[i, k]), "a node sees the value delivered last")
            ctx.check(n.seen[k][1] == fresh[i, k], "an input is marked as updated if its value changed since the last tick of its node")
            fresh[i, k] = False
        for a, ka, b, kb in ws:
            if a != i or ka not in n.wrote:
                continue
            changed = True if (a, ka) not in out else n.wrote[ka] != out[a, ka]
            if changed:
                fresh[b, kb] = sym_or(fresh[b, kb], m[b, kb] != n.wrote[ka])
                m[b, kb] = n.wrote[ka]
                ctx.reach("delivered")
        for k, v in n.wrote.items():
            out[i, k] = v
        for j, o in enumerate(nodes):
            for k in ("p", "q", "s"):
                ctx.check(same(cur(o.node_config.inputs[k]), m[j, k]), "after a tick wired inputs hold the value written, other inputs are unchanged")
        for k, c in n.node_config.outputs.items():
            ctx.check(same(cur(c), out.get((i, k), NONE)), "an output holds the value written last")
    ctx.reach("done")


def chain(ctx, ticks):
    """Within one tick of the tree a value written by a node arrives before a later node reads it."""
    dfm, nodes = tree(ctx, 4, only=("x",))
    root, a, b, c = nodes
    for ch in (a, b, c):
        ok(ctx, root.add_child(ch), "add_child")
    start(ctx, dfm, nodes, [wire(a, "x", b, "p"), wire(a, "x", c, "q"), wire(b, "x", c, "p"), wire(c, "x", a, "p"), wire(c, "x", root, "p")])
    m = fill(ctx, nodes)
    for s in range(ticks):
        ok(ctx, root.tick(), "tick")
        av = a.wrote.get("x")
        ctx.check(same(b.seen["p"][0], m[2, "p"] if av is None else av), "a later node reads the value of this tick")
        ctx.check(same(c.seen["q"][0], m[3, "q"] if av is None else av), "every later node reads the value of this tick")
        bv = b.wrote.get("x")
        ctx.check(same(c.seen["p"][0], m[3, "p"] if bv is None else bv), "the last node reads the value of this tick")
        ctx.check(same(a.seen["p"][0], m[1, "p"]), "an earlier node reads the value of the previous tick")
        m = {(j, k): cur(o.node_config.inputs[k]) for j, o in enumerate(nodes) for k in ("p", "q", "s")}
        if c.wrote:
            ctx.check(same(m[1, "p"], c.wrote["x"]), "a value is delivered to an earlier node")
            ctx.check(same(m[0, "p"], c.wrote["x"]), "a value is delivered to the parent")
            ctx.reach("back")
    ctx.reach("done")


def invalid(ctx):
    """A wiring that leads nowhere is reported, not raised."""
    dfm, nodes = tree(ctx, 2, only=("x",))
    a, b = nodes
    kind = ctx.pick("kind", ["source", "source key", "target", "target key", "id", "no id"])
    w = {"source": wire(U(77), "x", b, "p"), "source key": wire(a, "zz", b, "p"), "target": wire(a, "x", U(77), "p"),
         "target key": wire(a, "x", b, "zz"), "id": wire(a, "x", b, "p"), "no id": wire(a, "x", b, "p")}[kind]
    if kind == "id":
        t = ctx.pick("id", ["x", "1", "--", str(U(0))[1:], str(U(0)) + "0", "{}", "\u00e4" * 32])
        if ctx.pick("side", [0, 1]):
            w.source.node_id = t
        else:
            w.target.node_id = t
    if kind == "no id":
        w.source.node_id = ""
    good = wire(a, "x", b, "q")
    r = dfm.initialize({n.node_id: n for n in nodes}, [good, w] if ctx.pick("first", [True, False]) else [w, good])
    if r.is_err():
        ctx.reach("refused")
        return
    for n in nodes:
        ok(ctx, n.setup(), "setup")
    fill(ctx, nodes)
    r = a.tick()
    if "x" in a.wrote or kind in ("source key",):
        ctx.check(r.is_err() or kind == "source", "a tick that writes to an invalid wiring reports an error")
    if r.is_err():
        ctx.check(a.state == S.BROKEN, "a node whose outputs can't be delivered is BROKEN")
        ctx.reach("broken")


def narrow(ctx):
    """A value the target refuses breaks the source, the target keeps its value."""
    dfm, nodes = tree(ctx, 2, (FlowNode, NarrowNode), only=("x",))
    a, b = nodes
    start(ctx, dfm, nodes, [wire(a, "x", b, "p")])
    m = fill(ctx, nodes)
    r = a.tick()
    v = a.wrote.get("x")
    if v is None or sym_and(0 <= v, v <= 5):
        ctx.check(val(r) == SU, "a delivered value leads to success")
        ctx.check(same(cur(b.node_config.inputs["p"]), m[1, "p"] if v is None else v), "the value is delivered")
        ctx.reach("ok")
    else:
        ctx.check(r.is_err() and a.state == S.BROKEN, "a refused value is reported as error")
        ctx.check(same(cur(b.node_config.inputs["p"]), m[1, "p"]), "a refused value leaves the input unchanged")
        ctx.reach("refused")


def nothing(ctx):
    """Unset outputs and errors deliver nothing; reset and setup forget outputs."""
    dfm, nodes = tree(ctx, 2, only=("x",))
    a, b = nodes
    start(ctx, dfm, nodes, [wire(a, "x", b, "p")])
    m = fill(ctx, nodes)
    for s in range(2):
        ok(ctx, a.tick(), "tick")
        if a.wrote:
            m[1, "p"] = a.wrote["x"]
        op = ctx.pick("op%d" % s, ["reset", "untick", "again"])
        if op == "reset":
            ok(ctx, a.reset(), "reset")
        elif op == "untick":
            ok(ctx, a.untick(), "untick")
        elif op == "again":
            ok(ctx, a.shutdown(), "shutdown")
            ok(ctx, a.setup(), "setup")
            for k in ("p", "q"):
                ok(ctx, a.node_config.inputs[k].set_value(m[0, k]), "set input")
        ctx.check(same(cur(b.node_config.inputs["p"]), m[1, "p"]), "reset, untick and setup of the source deliver nothing")
        if op != "untick":
            # the target was overwritten from elsewhere meanwhile: the next write has to arrive, whatever was written before
            v = ctx.int("ext%d" % s, 0, 5)
            ok(ctx, b.node_config.inputs["p"].set_value(v), "set input")
            m[1, "p"] = v
    ok(ctx, a.tick(), "tick")
    if a.wrote and op != "untick":
        ctx.check(same(cur(b.node_config.inputs["p"]), a.wrote["x"]), "the first value after a reset is delivered")
        ctx.reach("after reset")
    ctx.reach("done")


def external(ctx):
    """Data entering and leaving the tree from outside."""
    inc = {"%s.p" % U(0): IntType(is_static=False), "%s.q" % U(1): IntType(is_static=False), "%s.p" % U(9): IntType(is_static=False), "%s.zz" % U(0): IntType(is_static=False), "unrelated": IntType(is_static=False), "nonsense.p": IntType(is_static=False)}
    outg = {"%s.x" % U(0): IntType(is_static=False), "%s.y" % U(1): IntType(is_static=False), "%s.x" % U(9): IntType(is_static=False), "other": IntType(is_static=False)}
    dfm, nodes = tree(ctx, 2, dfm=DataFlowManager(incoming_data=inc, outgoing_data=outg))
    start(ctx, dfm, nodes, [])
    m = fill(ctx, nodes)
    held = {k: cur(c) for k, c in outg.items()}
    part = ctx.pick("part", ["all", "in", "out"])
    for s in range(1 if part == "all" else 2):
        for key in ([] if part == "out" else sorted(inc) if part == "all" else ["%s.p" % U(0)]):
            inc[key].reset_updated()
            if key[-1] in "dz" or ctx.bool("i%d%s?" % (s, key)):
                v = ctx.int("i%d%s" % (s, key), 0, 5)
                ok(ctx, inc[key].set_value(v), "set incoming data")
        for j, k in ((0, "p"), (1, "q")):
            c = inc["%s.%s" % (U(j), k)]
            if c.is_updated():
                m[j, k] = cur(c)
                ctx.reach("in")
        ok(ctx, dfm.push_incoming_data(), "push_incoming_data")
        for j, o in enumerate(nodes):
            for k in ("p", "q", "s"):
                ctx.check(same(cur(o.node_config.inputs[k]), m[j, k]), "changed data from outside arrives at its input, other inputs are unchanged")
        if part != "out":
            continue
        i = ctx.pick("t%d" % s, [0, 1])
        ok(ctx, nodes[i].tick(), "tick")
        for k, v in nodes[i].wrote.items():
            key = "%s.%s" % (U(i), k)
            if key in outg:
                held[key] = v
                ctx.reach("out")
        for key, c in outg.items():
            ctx.check(same(cur(c), held[key]), "data leaving the tree holds the value written last, unrelated data is unchanged")
    ctx.reach("done")


def report(ctx):
    """The reported data of every wiring is that of its source and says whether the target holds it."""
    dfm, nodes = tree(ctx, 3, only=("x",))
    a, b, c = nodes
    ws = [wire(a, "x", b, "p"), wire(a, "x", c, "q"), wire(b, "x", c, "p")]
    start(ctx, dfm, nodes, ws)
    fill(ctx, nodes)
    ok(ctx, a.tick(), "tick")
    if ctx.pick("over?", [False, True]):
        ok(ctx, b.node_config.inputs["p"].set_value(ctx.int("over", 0, 5)), "set input")
    data = list(dfm.get_wiring_data())
    ctx.check(len(data) == 3, "every wiring is reported once")
    for w in ws:
        d = [d for d in data if d.wiring.source.node_id == w.source.node_id and d.wiring.target.node_id == w.target.node_id]
        ctx.check(len(d) == 1, "every wiring is reported once")
        d = d[0]
        ctx.check(d.wiring.source.data_key == w.source.data_key and d.wiring.target.data_key == w.target.data_key, "a wiring is reported with its keys")
        by = {uuid_to_ros(n.node_id): n for n in nodes}
        src = by[w.source.node_id].node_config.outputs[w.source.data_key]
        dst = by[w.target.node_id].node_config.inputs[w.target.data_key]
        ctx.check(d.serialized_data == src.serialize_value(), "the reported value is that of the source")
        ctx.check(d.is_current == same(cur(src), cur(dst)), "a wiring is current exactly if the target holds the value of the source")
        ctx.check(d.source_type == src.get_runtime_type().serialize_type() and d.target_type == dst.get_runtime_type().serialize_type(), "the reported types are those of source and target")
        if d.is_current:
            ctx.reach("current")
        else:
            ctx.reach("outdated")


LISTS = dict(inputs={"l": ListType(element_type=IntType(), allow_static=False), "d": DictType(element_type=IntType(), allow_static=False)},
             outputs={"l": ListType(element_type=IntType()), "d": DictType(element_type=IntType())}, max_children=0)


@define_bt_node(NodeConfig(**LISTS))
class ListNode(FlowBase, Leaf):
    def _do_tick(self):
        self.l, self.d = [self.ctx.int("l0", 0, 3)], {"k": self.ctx.int("d0", 0, 3)}
        for k, v in (("l", self.l), ("d", self.d)):
            if self.outputs.set_value(k, v).is_err():
                return Err(BehaviorTreeException("output"))
        return Ok(SU)


def isolated(ctx):
    """A delivered value is a copy: changing one receiver's copy changes no other."""
    dfm = DataFlowManager(incoming_data={}, outgoing_data={})
    a, b, c = [ListNode(node_id=U(i), name="n%d" % i, data_flow_manager=dfm).plan(ctx, "n") for i in range(3)]
    start(ctx, dfm, [a, b, c], [wire(a, k, t, k) for t in (b, c) for k in ("l", "d")])
    for k, v in (("l", []), ("d", {})):
        ok(ctx, a.node_config.inputs[k].set_value(v), "set input")
    ok(ctx, a.tick(), "tick")
    want_l, want_d = copy.deepcopy(a.l), copy.deepcopy(a.d)
    a.l.append(9)
    a.d["z"] = 9
    how = ctx.pick("how", ["source", "target"])
    if how == "source":
        cur(a.node_config.outputs["l"]).append(7)
        cur(a.node_config.outputs["d"])["y"] = 7
    else:
        cur(c.node_config.inputs["l"]).append(7)
        cur(c.node_config.inputs["d"])["y"] = 7
    ctx.check(same(cur(b.node_config.inputs["l"]), want_l) and same(cur(b.node_config.inputs["d"]), want_d), "a delivered value is independent of the other copies")
    ctx.reach(how)


def harnesses(tier):
    t = tier == "thorough"
    return [
        H("deliver/1", deliver, dict(steps=4 if t else 3, nwires=1), "3 nodes, 1 wiring, %d ticks, any writes" % (4 if t else 3), reach=("delivered", "done")),
        H("deliver/2", deliver, dict(steps=3 if t else 2, nwires=2), "3 nodes, 2 wirings, %d ticks, any writes" % (3 if t else 2), reach=("delivered", "done")),
        H("chain", chain, dict(ticks=2 if t else 1), "4 nodes in a tree, 5 wirings, %d ticks" % (2 if t else 1), reach=("back", "done")),
        H("invalid", invalid, {}, "1 valid and 1 invalid wiring of 6 kinds, 7 malformed ids", reach=("refused", "broken")),
        H("narrow", narrow, {}, "any value", reach=("ok", "refused")),
        H("forgotten", nothing, {}, "3 ticks with reset/untick/new setup between", reach=("after reset", "done")),
        H("external", external, {}, "6 incoming, 4 outgoing entries, 2 rounds", reach=("in", "out", "done")),
        H("report", report, {}, "3 nodes, 3 wirings", reach=("current", "outdated")),
        H("isolated", isolated, {}, "list and dict outputs with two receivers", reach=("source", "target")),
    ]
