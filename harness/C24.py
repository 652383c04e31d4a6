"""Topic nodes: histories of ticks, messages (also late ones), new inputs, interruptions and time."""
import types

from harness.C22 import *
from ros_bt_py.ros_nodes.topic import TopicSubscriber, TopicMemorySubscriber, TopicPublisher
from ros_bt_py.data_types import RosTopicType, RosTopicName, BoolType, IntType, ReferenceType
from ros_bt_py.ros_helpers import get_interface_name
from rclpy.qos import QoSProfile, QoSReliabilityPolicy, QoSDurabilityPolicy
from vf_msgs.msg import Two, Nested

ASSUMPTIONS = ["delays are multiples of 1/8 s, the clock has ns resolution and never goes back", "messages arrive between two calls of a node, or while it destroys its subscription, or after that"]


class Setup:
    """The inputs of a topic node."""

    def __init__(self, ctx, cls, **more):
        self.ctx = ctx
        new = {"topic_type": RosTopicType(value=Two, interface_id=1), "topic_name": RosTopicName(interface_id=1, is_static=False), "reliable": BoolType(is_static=False),
               "transient_local": BoolType(is_static=False), "depth": IntType(min_value=0, is_static=False)}
        for c in more.values():
            if isinstance(c, ReferenceType):
                ok(ctx, c.set_type_map(new), "set_type_map")
        self.n = cls(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"), new_inputs=dict(new, **more))
        ok(ctx, self.n.setup(), "setup")
        self.v = {"topic_name": "/t0", "reliable": ctx.bool("reliable"), "transient_local": ctx.bool("transient"), "depth": ctx.int("depth", 0, 9)}
        self.names = 0
        self.give()

    def give(self):
        for k, v in self.v.items():
            inp(self.ctx, self.n, k, v)

    def rename(self):
        self.names += 1
        self.change("topic_name", "/t%d" % self.names)

    def change(self, k, v):
        self.v[k] = v
        inp(self.ctx, self.n, k, v)

    def qos(self, q):
        r, t = self.v["reliable"], self.v["transient_local"]
        return sym_and(q.depth == self.v["depth"], (q.reliability == QoSReliabilityPolicy.RELIABLE) == r, (q.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL) == t,
                       sym_or(q.reliability == QoSReliabilityPolicy.RELIABLE, q.reliability == QoSReliabilityPolicy.BEST_EFFORT))


def subscriber(ctx, steps, ops, memory, start=()):
    w = stubs.world()
    w.now_ns = ctx.int("t0", 0, 1 << 50)
    s, ns = timeout(ctx)
    st = Setup(ctx, TopicMemorySubscriber if memory else TopicSubscriber, **({"memory_delay": FloatType(value=s, allow_dynamic=False)} if memory else {}))
    n = st.n
    cur = got = at = None
    fresh = True
    w.sub_hook = None

    def message(i):
        return Two(i=ctx.int("m%d" % i, -9, 9), s="m")
    for i in range(steps):
        op = start[i] if i < len(start) else ctx.pick("op%d" % i, ops)
        if op == "tick":
            w.now_ns += ctx.int("dt%d" % i, 0, 1 << 50)
            before = len(w.subs)
            r = ok(ctx, n.tick(), "tick")
            new = w.subs[before:]
            opened = [x for x in w.subs if not x.destroyed]
            ctx.check(len(opened) == 1, "there is one subscription")
            if fresh:
                ctx.check(len(new) == 1, "new inputs lead to a new subscription")
                cur, got = opened[0], None
            else:
                ctx.check(opened[0] is cur, "without new inputs the subscription is kept")
            ctx.check(cur.topic == st.v["topic_name"] and cur.msg_type is Two, "the topic that was asked for is subscribed")
            ctx.check(st.qos(cur.qos), "the subscription has the requested quality of service")
            fresh = False
            if got is None:
                ctx.check(r == R, "without a new message of this topic a subscriber is running")
                ctx.reach("running")
                continue
            if memory:
                ctx.check(sym_or(r == SU, r == F), "a subscriber that has a message succeeds or fails")
                ctx.check(sym_implies(r == F, w.now_ns - at >= ns), "a recent message is a success")
                ctx.check(sym_implies(r == SU, w.now_ns - at <= ns), "an old message is a failure")
            else:
                ctx.check(r == SU, "a new message is a success")
            if r == SU:
                m = n.node_config.outputs["message"].get_value()
                ctx.check(m.is_ok() and sym_and(m.unwrap().i == got.i, m.unwrap().s == got.s), "the output is the latest message")
                ctx.reach("succeeded")
            else:
                ctx.reach("failed")
            if not memory:
                got = None
        elif op == "message":
            for x in w.subs:
                if not x.destroyed:
                    w.now_ns += ctx.int("dt%d" % i, 0, 1 << 50)
                    m = message(i)
                    x.callback(m)
                    if x is cur:
                        got, at = m, w.now_ns
        elif op == "late message":
            for x in w.subs:
                if x.destroyed:
                    x.callback(message(i))
                    ctx.reach("late")
                    break
        elif op == "message while destroying":
            def hook(x, i=i):
                w.sub_hook = None
                x.callback(message(i))
                ctx.reach("while destroying")
            w.sub_hook = hook
        elif op == "name":
            st.rename()
            fresh = True
        elif op == "reliable":
            st.change("reliable", sym_not(st.v["reliable"]))
            fresh = True
        elif op == "depth":
            d = ctx.int("depth%d" % i, 0, 9)
            ctx.assume(d != st.v["depth"])
            st.change("depth", d)
            fresh = True
        elif op == "untick":
            ok(ctx, n.untick(), op)
        else:
            ok(ctx, getattr(n, op)(), op)
            ctx.check(all(x.destroyed for x in w.subs), "a node that is reset or shut down isn't subscribed")
            if op == "shutdown":
                ok(ctx, n.setup(), "setup")
                st.give()
            fresh = True
            ctx.reach("stopped")


def publisher(ctx, steps, ops, start=()):
    w = stubs.world()
    st = Setup(ctx, TopicPublisher, message=ReferenceType(reference="topic_type", is_static=False))
    n = st.n
    pubs = w.publishers
    known = {id(p) for p in pubs}
    msg = Two(i=ctx.int("m", -9, 9), s="m")
    inp(ctx, n, "message", msg)
    fresh, changed, cur = True, True, None
    for i in range(steps):
        op = start[i] if i < len(start) else ctx.pick("op%d" % i, ops)
        if op == "tick":
            before, had = len(w.published), len(pubs)
            r = ok(ctx, n.tick(), "tick")
            ctx.check(r == SU, "publishing is a success")
            opened = [p for p in pubs if not p.destroyed and id(p) not in known]
            ctx.check(len(opened) == 1, "there is one publisher")
            ctx.check(fresh or opened[0] is cur, "without new inputs the publisher is kept")
            ctx.check(not fresh or len(pubs) == had + 1, "new inputs lead to a new publisher")
            cur = opened[0]
            ctx.check(cur.topic == st.v["topic_name"] and cur.msg_type is Two, "the topic that was asked for is published")
            ctx.check(st.qos(cur.qos_profile), "the publisher has the requested quality of service")
            out = w.published[before:]
            ctx.check(len(out) <= 1, "a message is published once")
            ctx.check(out or not changed, "a new message is published")
            ctx.check(not out or changed or fresh, "a message isn't published again without reason")
            for p, m in out:
                ctx.check(p is cur and sym_and(m.i == msg.i, m.s == msg.s), "the current message is published to the current topic")
                ctx.reach("published")
            fresh = changed = False
        elif op == "message":
            v = ctx.int("m%d" % i, -9, 9)
            ctx.assume(v != msg.i)
            msg = Two(i=v, s="m%d" % i)
            changed = True
            inp(ctx, n, "message", msg)
        elif op == "name":
            st.rename()
            fresh = True
        elif op == "depth":
            d = ctx.int("depth%d" % i, 0, 9)
            ctx.assume(d != st.v["depth"])
            st.change("depth", d)
            fresh = True
        elif op == "transient":
            st.change("transient_local", sym_not(st.v["transient_local"]))
            fresh = True
        elif op == "untick":
            ok(ctx, n.untick(), op)
        else:
            ok(ctx, getattr(n, op)(), op)
            ctx.check(all(p.destroyed for p in pubs if id(p) not in known), "a node that is reset or shut down has no publisher")
            if op == "shutdown":
                ok(ctx, n.setup(), "setup")
                st.give()
                inp(ctx, n, "message", msg)
                changed = True
            fresh = True
            ctx.reach("stopped")


def utility(ctx, memory):
    """A subscriber can execute if somebody publishes that topic with that type and quality of service."""
    w = stubs.world()
    st = Setup(ctx, TopicMemorySubscriber if memory else TopicSubscriber, **({"memory_delay": FloatType(value=1.0, allow_dynamic=False)} if memory else {}))
    n = ctx.pick("publishers", [0, 1, 2])
    infos, good = [], False
    for i in range(n):
        right, typ, q = ctx.pick("topic%d" % i, [True, False]), ctx.pick("type%d" % i, [Two, Nested]), ctx.pick("qos%d" % i, [True, False])
        qos = QoSProfile(reliability=QoSReliabilityPolicy.RELIABLE if st.v["reliable"] else QoSReliabilityPolicy.BEST_EFFORT,
                         durability=QoSDurabilityPolicy.TRANSIENT_LOCAL if st.v["transient_local"] else QoSDurabilityPolicy.VOLATILE, depth=st.v["depth"])
        if not q:
            ctx.assume(st.v["reliable"])
            qos = QoSProfile(reliability=QoSReliabilityPolicy.BEST_EFFORT, durability=qos.durability, depth=st.v["depth"])
        infos.append(("/t0" if right else "/other", types.SimpleNamespace(topic_type=get_interface_name(typ), qos_profile=qos)))
        good = good or right and typ is Two and q
    w.publishers_info = lambda t: [e for topic, e in infos if topic == t]
    u = ok(ctx, st.n.calculate_utility(), "calculate_utility")
    ctx.check(bool(u.can_execute) == good, "a subscriber can execute iff its topic is published")
    if good:
        ctx.check(u.has_lower_bound_success and u.has_upper_bound_success and u.has_lower_bound_failure and u.has_upper_bound_failure, "all bounds are known")
        ctx.check(u.lower_bound_success == 0 and u.upper_bound_success == 0 and u.lower_bound_failure == 0 and u.upper_bound_failure == 0, "subscribing costs nothing")
        ctx.reach("can")
    else:
        ctx.reach("can't")


def harnesses(tier):
    t = tier == "thorough"
    k = 5 if t else 4
    l = 5 if t else 3
    hs = []
    for memory in (False, True):
        nm = "memory" if memory else "subscriber"
        re = ("running", "succeeded") + (("failed",) if memory else ())
        ops = ["tick", "message", "late message", "name", "reliable", "depth", "untick", "reset", "shutdown"]
        hs.append(H(nm, subscriber, dict(steps=l, ops=ops, memory=memory), "%d operations" % l, reach=("running",), real_floats=True, max_paths=300000))
        hs.append(H(nm + "/subscribed", subscriber, dict(steps=l + 1, ops=ops, memory=memory, start=("tick",)), "a tick, then %d operations" % l, reach=re + ("stopped", "late"), real_floats=True, max_paths=300000))
        hs.append(H(nm + "/messages", subscriber, dict(steps=k + 3, ops=["tick", "message"], memory=memory, start=("tick",)), "a tick, then %d ticks or messages" % (k + 2), reach=re, real_floats=True, max_paths=300000))
        hs.append(H(nm + "/race", subscriber, dict(steps=k + 3, ops=["tick", "reset", "name", "message"], memory=memory, start=("tick", "message while destroying", "name" if memory else "reset")), "a message arrives while the subscription is destroyed, then %d operations" % k,
                    reach=("running", "while destroying"), real_floats=True, max_paths=300000))
        hs.append(H(nm + "/race2", subscriber, dict(steps=k + 3, ops=["tick", "late message", "untick", "message"], memory=memory, start=("tick", "reset", "tick")), "after a new subscription %d operations" % k, reach=re + ("late",), real_floats=True, max_paths=300000))
        hs.append(H(nm + "/utility", utility, dict(memory=memory), "up to 2 publishers", reach=("can", "can't"), max_paths=100000))
    ops = ["tick", "message", "name", "depth", "transient", "untick", "reset", "shutdown"]
    hs.append(H("publisher", publisher, dict(steps=l, ops=ops), "%d operations" % l, reach=("published", "stopped"), max_paths=300000))
    for f in ("message", "name", "reset"):
        hs.append(H("publisher/" + f, publisher, dict(steps=l + 2, ops=ops, start=("tick", f)), "a tick and %s, then %d operations" % (f, l), reach=("published", "stopped"), max_paths=300000))
    return hs
