"""Timing nodes: Wait, Throttle, ThrottleSuccess, GetTimeNow against a clock that advances by symbolic amounts."""
from harness.inner import *
from ros_bt_py.ros_nodes.wait import Wait
from ros_bt_py.ros_nodes.time import GetTimeNow

ASSUMPTIONS = ["durations are multiples of 1/8 s and below 2^20 s, the clock has ns resolution and never goes back; then rounding can't change the outcome of a comparison"]
SEC = 10 ** 9


def node(ctx, cls, key=None, value=None):
    n = cls(node_id=U(1), name="t", ros_node=rclpy.node.Node("n"))
    if key:
        ok(ctx, n.node_config.inputs[key].set_value(value), "set " + key)
    return n


def seconds(ctx, name):
    """A duration in seconds and in nanoseconds."""
    k = ctx.int(name, 0, 1 << 23)
    return k / 8, k * (SEC // 8)


def advance(ctx, i):
    stubs.world().now_ns += ctx.int("dt%d" % i, 0, 1 << 54)
    return stubs.world().now_ns


def wait(ctx, steps, ops):
    """Wait is RUNNING until the time has elapsed since the first tick, then SUCCEEDED."""
    stubs.world().now_ns = ctx.int("t0", 0, 1 << 56)
    s, ns = seconds(ctx, "seconds")
    n = node(ctx, Wait, "seconds_to_wait", s)
    ok(ctx, n.setup(), "setup")
    first = last = None
    for i in range(steps):
        now = advance(ctx, i)
        op = ctx.pick("op%d" % i, ops)
        if op == "tick":
            if first is None:
                first = now
            if last is None:
                last = now
            r = ok(ctx, n.tick(), "tick")
            ctx.check(sym_or(r == SU, r == R), "a waiting node runs or succeeds")
            ctx.check(sym_implies(r == SU, now - first >= ns), "Wait doesn't succeed before the time has elapsed")
            ctx.check(sym_implies(r == R, now - last < ns), "Wait succeeds as soon as the time has elapsed")
            ctx.check(r == n.state, "the result is the state")
            ctx.reach("succeeded" if r == SU else "running")
            if r == SU and i:
                ctx.reach("later")
        elif op == "untick":
            ok(ctx, n.untick(), "untick")
            last = None
        elif op == "reset":
            ok(ctx, n.reset(), "reset")
            first = last = None
        else:
            ok(ctx, n.shutdown(), "shutdown")
            ok(ctx, n.setup(), "setup")
            first = last = None


def throttle(ctx, cls, steps, ops, ticks):
    """A child that returned a result (or success) isn't ticked again before the interval is over."""
    stubs.world().now_ns = ctx.int("t0", 0, 1 << 56)
    s, ns = seconds(ctx, "interval")
    n = node(ctx, cls, "tick_interval", s)
    log = []
    c = probes(ctx, n, 1, log, ticks=ticks)[0]
    ok(ctx, n.setup(), "setup")
    at = stored = None
    cleared = False
    for i in range(steps):
        now = advance(ctx, i)
        op = ctx.pick("op%d" % i, ops)
        log.clear()
        if op == "tick":
            r = n.tick()
            got = ticks_of(log)
            ctx.check(len(got) <= 1, "a child is ticked at most once per tick")
            if got:
                ctx.check(at is None or cleared or now - at >= ns, "a child isn't ticked before the interval is over")
                res = [x for o, t, x in log if o == "tick"][0]
                if res == ERR:
                    ctx.check(r.is_err(), "an error of the child is an error")
                    ctx.reach("error")
                    return
                ctx.check(ok(ctx, r, "tick") == res, "a ticked child's result is returned")
                if res == SU or cls is Throttle and res == F:
                    if at is not None:
                        ctx.reach("again")
                    at, stored, cleared = now, res, False
                ctx.reach("ticked")
            else:
                ctx.check(at is not None, "the child is ticked unless it returned a result before")
                ctx.check(now - at <= ns, "the child is ticked once the interval is over")
                ctx.check(ok(ctx, r, "tick") == (stored if cls is Throttle else F), "a throttled node returns the last result or fails")
                ctx.reach("throttled")
        elif op == "untick":
            ok(ctx, n.untick(), "untick")
            ctx.check(quiet(c), "an unticked child doesn't run")
        elif op == "reset":
            ok(ctx, n.reset(), "reset")
            cleared = True
        else:
            ok(ctx, n.shutdown(), "shutdown")
            ok(ctx, n.setup(), "setup")
            at = stored = None


def now(ctx, steps):
    """GetTimeNow outputs the time of the tick."""
    stubs.world().now_ns = ctx.int("t0", 0, 1 << 56)
    n = node(ctx, GetTimeNow)
    ok(ctx, n.setup(), "setup")
    for i in range(steps):
        t = advance(ctx, i)
        r = ok(ctx, n.tick(), "tick")
        ctx.check(r == SU, "reading the time succeeds")
        m = ok(ctx, n.node_config.outputs["current_time"].get_value(), "current_time")
        ctx.check(m.sec * SEC + m.nanosec == t, "the output is the time of the tick")
        ctx.check(sym_and(m.nanosec >= 0, m.nanosec < SEC), "nanoseconds are less than a second")
        ctx.reach("now")


def norosnode(ctx, cls, key):
    """Without a ROS node there is no clock: setup reports that."""
    n = cls(node_id=U(1), name="t")
    if key:
        ok(ctx, n.node_config.inputs[key].set_value(1.0), "set")
    ctx.check(n.setup().is_err(), "setup without a ROS node is an error")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    k = 6 if t else 4
    ops = ["tick", "untick", "reset", "shutdown"]
    hs = [H("wait", wait, dict(steps=k, ops=ops), "%d operations, any duration and any time between them" % k, reach=("succeeded", "running", "later"), real_floats=True, max_paths=100000),
          H("wait/ticks", wait, dict(steps=k + 2, ops=["tick"]), "%d ticks, any duration and any time between them" % (k + 2), reach=("succeeded", "running", "later"), real_floats=True)]
    for c in (Throttle, ThrottleSuccess):
        hs.append(H(c.__name__, throttle, dict(cls=c, steps=k, ops=["tick", "untick", "reset", "shutdown"], ticks=RSF), "%d operations, any interval, results and time between them" % k,
                    reach=("ticked", "throttled", "again"), real_floats=True, max_paths=300000))
        hs.append(H(c.__name__ + "/ticks", throttle, dict(cls=c, steps=k + 1, ops=["tick"], ticks=ALL4), "%d ticks, any interval, results and time between them" % (k + 1),
                    reach=("ticked", "throttled", "again", "error"), real_floats=True, max_paths=300000))
    hs.append(H("now", now, dict(steps=3), "3 ticks at any time", reach=("now",)))
    for c, key in ((Wait, "seconds_to_wait"), (Throttle, "tick_interval"), (ThrottleSuccess, "tick_interval"), (GetTimeNow, None)):
        hs.append(H("norosnode/" + c.__name__, norosnode, dict(cls=c, key=key), "", reach=("done",)))
    return hs
