"""Service nodes: histories of ticks, new inputs, responses (early, late, never), cancellation and time."""
from harness.inner import *
from ros_bt_py.ros_nodes.service import Service, WaitForService
from ros_bt_py.data_types import RosServiceType, RosServiceName, FloatType, get_message_field_io_type
from vf_msgs.srv import Ask

SEC = 10 ** 9
ASSUMPTIONS = ["timeouts are multiples of 1/8 s, the clock has ns resolution and never goes back", "responses arrive between two calls of the node (the executor's threads don't preempt a tick)"]


def timeout(ctx):
    k = ctx.int("timeout", 0, 1 << 20)
    return k / 8, k * (SEC // 8)


def field(t):
    c = get_message_field_io_type(t).unwrap()
    c.is_static = False
    return c


def inp(ctx, n, key, v):
    ok(ctx, n.node_config.inputs[key].set_value(v), "set " + key)


def open_clients():
    w = stubs.world()
    return [c for c in w.clients if not c.destroyed]


def service(ctx, steps, ops, start=("ask",), node_cls=None):
    w = stubs.world()
    w.now_ns = ctx.int("t0", 0, 1 << 50)
    s, ns = timeout(ctx)
    n = Service(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"), new_inputs={"service_type": RosServiceType(value=Ask, interface_id=1), "wait_for_response_seconds": FloatType(value=s, allow_dynamic=False),
                                                                                           "service_name": RosServiceName(interface_id=1, is_static=False), "a": field("int32"), "q": field("string")})
    ok(ctx, n.setup(), "setup")
    a, q, name, names = ctx.int("a", -5, 5), "q0", "/n0", 0
    for k, v in (("service_name", name), ("a", a), ("q", q)):
        inp(ctx, n, k, v)
    phase, last, at, changed, answered = "idle", None, None, False, False

    for i in range(steps):
        op = start[i] if i < len(start) and start[i] != "ask" else ctx.pick("op%d" % i, ops)
        calls = len(w.calls)
        if op == "tick":
            w.now_ns += ctx.int("dt%d" % i, 0, 1 << 50)
            pending = w.calls[-1][2] if w.calls else None
            fresh = phase == "idle" or changed
            err = None
            try:
                r = n.tick()
                err = r.is_err()
            except Exception:
                err = True
            new = w.calls[calls:]
            ctx.check(len(open_clients()) <= 1, "there is at most one client")
            if fresh:
                ctx.check(not err, "calling a service is no error")
                ctx.check(len(new) == 1, "new request data lead to exactly one call")
                c, req, f = new[0]
                ctx.check(not c.destroyed, "a call is made by a client that still exists")
                ctx.check(c.srv_name == name, "the call goes to the service that was asked for")
                ctx.check(sym_and(req.a == a, req.q == q), "the request holds the current inputs")
                ctx.check(r.unwrap() == R, "a node that waits for a response is running")
                if phase == "pending":
                    ctx.check(pending.done() or pending.cancelled(), "a request that is replaced is cancelled")
                    ctx.reach("replaced")
                phase, at, changed, answered = "pending", w.now_ns, False, None
                ctx.reach("called")
                continue
            ctx.check(not new, "the service isn't called again without new request data")
            if phase == "pending":
                if answered is not None:
                    if answered in ("none", "exception"):
                        ctx.check(err, "a missing response is an error")
                        ctx.reach("error")
                        return
                    ctx.check(not err and r.unwrap() == SU, "a response is a success")
                    o = n.node_config.outputs
                    ctx.check(sym_and(o["total"].get_value().unwrap() == answered[0], o["why"].get_value().unwrap() == answered[1]), "the outputs are those of the response to the latest request")
                    phase, last = "done", SU
                    ctx.reach("succeeded")
                    continue
                ctx.check(not err, "waiting is no error")
                st = r.unwrap()
                ctx.check(sym_or(st == R, st == F), "without a response a call doesn't succeed")
                late = w.now_ns - at
                ctx.check(sym_implies(st == F, late >= ns), "a call doesn't time out early")
                ctx.check(sym_implies(st == R, late <= ns), "a call times out")
                if st == F:
                    ctx.check(pending.cancelled(), "a request that timed out is cancelled")
                    phase, last = "done", F
                    ctx.reach("timeout")
                continue
            ctx.check(not err and r.unwrap() == last, "without new request data the result stays the same")
            ctx.reach("kept")
        elif op == "a":
            v = ctx.int("a%d" % i, -5, 5)
            ctx.assume(v != a)
            a, changed = v, True
            inp(ctx, n, "a", a)
        elif op == "name":
            names += 1
            name, changed = "/n%d" % names, True
            inp(ctx, n, "service_name", name)
        elif op in ("answer", "none", "exception"):
            if not w.calls or w.calls[-1][2].done() or w.calls[-1][2].cancelled():
                continue
            f = w.calls[-1][2]
            if op == "none":
                f.set_result(None)
                answered = "none"
            elif op == "exception":
                f.set_exception(RuntimeError("service failed"))
                answered = "exception"
            else:
                answered = (ctx.int("total%d" % i, -5, 5), "w%d" % i)
                f.set_result(Ask.Response(total=answered[0], why=answered[1]))
        elif op == "late":
            # the response to an older or cancelled request arrives after all
            old = [c[2] for c in (w.calls if phase != "pending" else w.calls[:-1]) if not c[2].done()]
            if not old:
                continue
            f = old[-1]
            f._cancelled = False
            f.set_result(Ask.Response(total=99, why="late"))
        else:
            f = w.calls[-1][2] if w.calls else None
            ok(ctx, getattr(n, op)(), op)
            ctx.check(f is None or f.done() or f.cancelled(), "a request nobody waits for is cancelled")
            if op == "shutdown":
                ctx.check(not open_clients(), "a node that is shut down has no client")
                ok(ctx, n.setup(), "setup")
                for k, v in (("service_name", name), ("a", a), ("q", q)):
                    inp(ctx, n, k, v)
            phase = "idle"
            ctx.reach("stopped")


def wait(ctx, steps, ops):
    """WaitForService succeeds iff the service is there, and fails only after its timeout."""
    w = stubs.world()
    w.now_ns = ctx.int("t0", 0, 1 << 50)
    s, ns = timeout(ctx)
    n = WaitForService(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"),
                       new_inputs={"service_type": RosServiceType(value=Ask, interface_id=1), "wait_for_service_seconds": FloatType(value=s, allow_dynamic=False),
                                   "service_name": RosServiceName(interface_id=1, is_static=False)})
    ready = [None]
    asked = []

    def is_ready(c):
        asked.append(c)
        return ready[0]
    w.service_ready = is_ready
    ok(ctx, n.setup(), "setup")
    name = "/n"
    inp(ctx, n, "service_name", name)
    first = last = None
    for i in range(steps):
        op = ctx.pick("op%d" % i, ops)
        if op == "tick":
            w.now_ns += ctx.int("dt%d" % i, 0, 1 << 50)
            ready[0] = ctx.bool("ready%d" % i)
            asked.clear()
            r = ok(ctx, n.tick(), "tick")
            ctx.check(asked and all(not c.destroyed and c.srv_name == name for c in asked), "the service that was asked for is checked")
            ctx.check(len(open_clients()) == 1, "there is one client")
            if not ready[0]:
                first = w.now_ns if first is None else first
                last = w.now_ns if last is None else last
            if ready[0]:
                ctx.check(r == SU, "an available service is a success")
                last = None
                ctx.reach("succeeded")
            else:
                ctx.check(sym_or(r == R, r == F), "a service that isn't available is no success")
                ctx.check(sym_implies(r == F, w.now_ns - first >= ns), "waiting doesn't fail early")
                ctx.check(sym_implies(r == R, w.now_ns - last <= ns), "waiting times out")
                ctx.reach("failed" if r == F else "running")
        elif op == "name":
            name = "/n%d" % i
            inp(ctx, n, "service_name", name)
            first = last = None
        else:
            ok(ctx, getattr(n, op)(), op)
            if op == "shutdown":
                ctx.check(not open_clients(), "a node that is shut down has no client")
                ok(ctx, n.setup(), "setup")
                inp(ctx, n, "service_name", name)
            first = last = None


def utility(ctx):
    def make():
        return Service(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"),
                       new_inputs={"service_type": RosServiceType(value=Ask, interface_id=1), "wait_for_response_seconds": FloatType(value=2.0, allow_dynamic=False),
                                   "service_name": RosServiceName(interface_id=1, is_static=False), "a": field("int32"), "q": field("string")})

    def fill(n):
        for k, v in (("service_name", "/n0"), ("a", 1), ("q", "q")):
            inp(ctx, n, k, v)
    can_execute(ctx, make, fill)


def can_execute(ctx, make, fill):
    """A node can execute iff it has a client whose service or action is available; calls cost nothing."""
    w = stubs.world()
    ready = {}

    def is_ready(c):
        ctx.check(not getattr(c, "destroyed", False), "only a live client is asked")
        return ready["now"]
    w.service_ready = is_ready
    n = make()
    client = False
    for i, op in enumerate(["new"] + [ctx.pick("op%d" % j, ["setup", "tick", "untick", "reset", "shutdown"]) for j in range(3)]):
        if op == "setup":
            ctx.assume(n.state in (S.UNINITIALIZED, S.SHUTDOWN))
            ok(ctx, n.setup(), "setup")
            fill(n)
        elif op != "new":
            ctx.assume(n.state not in (S.UNINITIALIZED, S.SHUTDOWN) or op == "shutdown")
            ready["now"] = True
            ok(ctx, getattr(n, op)(), op)
        if op == "tick":
            client = True
        elif op in ("reset", "shutdown"):
            client = False
        ready["now"] = ctx.bool("ready%d" % i)
        u = ok(ctx, n.calculate_utility(), "calculate_utility")
        can = bool(sym_and(client, ready["now"]))
        ctx.check(u.can_execute == can, "a node can execute iff its service or action is available")
        for b in ("lower_bound_success", "upper_bound_success", "lower_bound_failure", "upper_bound_failure"):
            if can:
                ctx.check(getattr(u, "has_" + b), "the cost of a call is known")
                ctx.check(getattr(u, b) == 0, "a call costs nothing")
            else:
                ctx.check(not getattr(u, "has_" + b), "a node that can't execute has no costs")
        ctx.reach("can" if can else "can't")


def harnesses(tier):
    t = tier == "thorough"
    k = 6 if t else 5
    every = ["tick", "a", "name", "answer", "none", "exception", "late", "untick", "reset", "shutdown"]
    hs = []
    for first in ("a", "answer", "late", "untick", "reset", "tick", "shutdown", "name"):
        hs.append(H("service/" + first, service, dict(steps=k, ops=every, start=("tick", first)), "%d operations, the first two being a tick and %s" % (k, first),
                    reach=("called",), real_floats=True, max_paths=400000, samples=4))
    hs.append(H("service/interrupted", service, dict(steps=k + 2, ops=["tick", "answer", "late"], start=("tick", "untick", "tick")), "%d operations after an interrupted call" % (k - 1), reach=("called", "succeeded", "timeout", "kept"), real_floats=True, max_paths=400000))
    hs.append(H("service/replaced", service, dict(steps=k + 2, ops=["tick", "answer", "late", "a"], start=("tick", "a", "tick")), "%d operations after a replaced call" % (k - 1), reach=("called", "succeeded", "timeout", "kept", "replaced"), real_floats=True, max_paths=400000))
    hs.append(H("service/fail", service, dict(steps=4, ops=["none", "exception", "tick"], start=("tick",)), "4 operations, the service fails", reach=("error",), real_floats=True))
    hs.append(H("utility", utility, {}, "3 operations, the service available or not after each", reach=("can", "can't")))
    hs.append(H("wait", wait, dict(steps=k, ops=["tick", "name", "untick", "reset", "shutdown"]), "%d operations, any availability and time" % k, reach=("succeeded", "failed", "running"), real_floats=True, max_paths=400000))
    return hs
