"""setup / untick / reset / shutdown reach the whole subtree, errors are reported."""
from harness.inner import *
import rclpy.node
from harness.C36 import LEAVES, GETTERS, inner as inner_spec, Side, call as call_op

E_ = (S.IDLE, ERR)


def build(ctx, outer, inner, n, log, **k):
    """outer node over (probe, inner node over n probes); returns root, all nodes, probes"""
    flow = outer in FLOW
    root = make_inner(ctx, outer, U(1))
    nodes, ps = [root], []
    if inner is None:
        ps = add(ctx, root, NAMES[:n] if flow else ["A"], log, **k)
        return root, nodes, ps
    sub = make_inner(ctx, inner, U(2))
    sub.name = "A"
    if outer == "Optional":
        pass
    ok(ctx, root.add_child(sub), "add_child")
    nodes.append(sub)
    ps += add(ctx, sub, NAMES[:n] if inner in FLOW else ["A"], log, **k)
    if flow:
        p = probe(ctx, "B2", log, **k)
        p.name = "B"
        ok(ctx, root.add_child(p), "add_child")
        ps.append(p)
    return root, nodes, ps


def good(ctx, outer, inner, n, steps):
    """No errors: after every call the whole subtree is in the matching state."""
    log = []
    root, nodes, ps = build(ctx, outer, inner, n, log)
    ctx.check(val(root.setup()) == S.IDLE, "setup succeeds")
    for x in nodes + ps:
        ctx.check(x.state == S.IDLE, "setup reaches every node of the subtree")
        if x not in ps:
            dyn(ctx, x)
    for k in range(steps):
        r = root.tick()
        ctx.check(r.is_ok(), "a tick with healthy children succeeds")
    op = ctx.pick("op", ["untick", "reset", "shutdown"])
    st = val(getattr(root, op)())
    if op == "shutdown":
        ctx.check(st == S.SHUTDOWN, "shutdown succeeds")
        for x in nodes + ps:
            ctx.check(x.state == S.SHUTDOWN, "shutdown reaches every node of the subtree")
        ctx.check(val(root.setup()) == S.IDLE, "a shut down subtree can be set up again")
        for x in nodes + ps:
            ctx.check(x.state == S.IDLE, "setup reaches every node of the subtree")
    else:
        want = (S.IDLE,) if op == "reset" else (S.IDLE, S.PAUSED)
        ctx.check(sym_or(*[st == w for w in want]), op + " succeeds")
        for x in nodes + ps:
            ctx.check(sym_or(*[x.state == w for w in want]), "no node of the subtree is executing after " + op)
        for p in ps:
            ctx.check(quiet(p), "no leaf works in the background after " + op)
    ctx.reach(op)


def bad(ctx, outer, n, op, ticked):
    """A child fails in setup/untick/reset/shutdown: reported, and shutdown still reaches everybody."""
    log = []
    k = {op: (S.SHUTDOWN, ERR) if op == "shutdown" else E_}
    root, nodes, ps = build(ctx, outer, None, n, log, **k)
    if op != "setup":
        ctx.check(val(root.setup()) == S.IDLE, "setup succeeds")
        dyn(ctx, root)
        if ticked and op != "untick":
            r = root.tick()
            if r.is_err():
                # the tick itself needed a child reset/untick that failed
                ctx.check(any(o == op and bool(r == ERR) for (o, t, r) in log), "a tick only fails when a child does")
                ctx.check(root.state == S.BROKEN, "a failed tick leaves the node BROKEN")
                return
        elif ticked:
            r = root.tick()
            if r.is_err():
                return
    at = len(log)
    r = getattr(root, op)()
    calls = [(t, x) for (o, t, x) in log[at:] if o == op]
    failed = any(bool(x == ERR) for (t, x) in calls)
    ctx.check(r.is_err() == failed, op + " reports an error exactly when a child failed")
    if failed:
        ctx.reach("failed")
    if op == "shutdown":
        ctx.check(sorted(t for t, _ in calls) == sorted(p.tag for p in ps), "shutdown is passed to every child even if one fails")
        ctx.check(root.state == S.SHUTDOWN, "the node itself is shut down even if a child is not")
        for p in ps:
            ctx.check(sym_or(p.state == S.SHUTDOWN, p.state == S.BROKEN), "no child is left in a live state")
    elif failed:
        ctx.check(root.state == S.BROKEN, "a failing child leaves the node BROKEN")
        ctx.check(val(root.tick()) == ERR, "a BROKEN node refuses to tick")
    elif op != "setup":
        for p in ps:
            ctx.check(quiet(p), "every child is stopped when " + op + " reports success")



def broken(ctx, outer, inner, n, ops):
    """Children fail while the tree is executed; the tree can still be shut down and set up again."""
    log = []
    k = {o: E_ for o in ("setup", "untick", "reset")}
    root, nodes, ps = build(ctx, outer, inner, n, log, ticks=(R, SU, ERR), **k)
    up = root.setup()
    if up.is_ok():
        for x in nodes:
            dyn(ctx, x)
        for i in range(ops):
            r = root.tick() if i == 0 else getattr(root, ctx.pick("op%d" % i, ["tick", "untick", "reset"]))()
            if r.is_err():
                ctx.reach("failed")
                break
    live = [p for p in ps if p.state != S.UNINITIALIZED]
    at = len(log)
    r = root.shutdown()
    ctx.check(r.is_ok(), "shutdown succeeds if no node fails to shut down")
    for p in live:
        ctx.check(len([1 for (o, t, _) in log[at:] if o == "shutdown" and t == p.tag]) == 1, "every node that was set up is shut down once, broken or not")
        ctx.check(p.state == S.SHUTDOWN, "every node that was set up is shut down")
    for x in nodes:
        if x.state != S.UNINITIALIZED:
            ctx.check(x.state == S.SHUTDOWN, "every node that was set up is shut down")
    for p in ps:
        p.calm()
    ctx.check(val(root.setup()) == S.IDLE, "a tree that was shut down can be set up again")
    for x in nodes + ps:
        ctx.check(x.state == S.IDLE, "setup reaches every node of the subtree")


def own(ctx, n):
    """The node's own shutdown fails: the children are shut down nevertheless."""
    log = []
    Base = make_rude()
    node = Base(name="n")
    node.mode = ctx.enum("own", [S.SHUTDOWN, ERR])
    ps = add(ctx, node, NAMES[:n], log, shutdown=(S.SHUTDOWN, ERR))
    if ctx.pick("up", [True, False]):
        ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    r = node.shutdown()
    bad_kid = any(bool(x == ERR) for (o, t, x) in log if o == "shutdown")
    ctx.check(r.is_err() == (bool(node.mode == ERR) or bad_kid), "shutdown reports an error exactly when something failed")
    for p in ps:
        ctx.check(any(o == "shutdown" and t == p.tag for (o, t, _) in log), "children are shut down even if the node's own shutdown fails")
    ctx.check(node.state == (S.BROKEN if node.mode == ERR else S.SHUTDOWN), "the node ends SHUTDOWN, or BROKEN if it failed")
    ctx.reach("own failed" if node.mode == ERR else "own ok")


def library(ctx, spec):
    """A node of the library that was never set up, or whose setup failed, is shut down and used afterwards."""
    spec = spec()
    if spec.get("init"):
        spec["init"]()
    before = ctx.pick("before", ["new", "in a sequence", "no ROS"])
    cls = rclpy.node.Node
    try:
        if before == "no ROS":
            rclpy.node.Node = lambda *a: None
        side = Side(ctx, spec, {}, 1)
    finally:
        rclpy.node.Node = cls
    side.mark = (0, 0)
    n = side.n
    if before == "no ROS":
        r = n.setup()
        ctx.check(r.is_err() == bool(n.state == S.BROKEN), "a node whose setup fails is broken, otherwise it is not")
        if r.is_err():
            ctx.reach("failed")
            ctx.check(n.tick().is_err(), "a node whose setup failed refuses to tick")
            ctx.check(n.state == S.BROKEN, "a node whose setup failed stays broken")
    root = n
    if before == "in a sequence":
        # the sequence gives up at its first child, the others are never set up
        root = Sequence(node_id=U(50), name="seq")
        bad = probe(ctx, "bad", [], setup=E_)
        ok(ctx, root.add_child(bad), "add_child")
        ok(ctx, root.add_child(n), "add_child")
        r = root.setup()
        if r.is_err():
            ctx.check(n.state == S.UNINITIALIZED, "nodes behind a failing one are not set up")
    r = root.shutdown()
    ctx.check(r.is_ok(), "a node can be shut down whether it was set up or not")
    for x in [root, n] + side.kids:
        ctx.check(x.state == S.SHUTDOWN, "shutdown reaches every node of the subtree")
    w = stubs.world()
    ctx.check(not w.calls and not w.goals and not [p for p in w.published if p[0] != "log"], "nothing is sent before the first tick")
    if not n.has_ros_node:
        n.ros_node = cls("n")
    if before == "in a sequence":
        bad.calm()
    ctx.check(val(root.setup()) == S.IDLE, "a node that was shut down can be set up afterwards")
    ctx.check(n.state == S.IDLE, "setup reaches every node of the subtree")
    side.give(spec["feed"](ctx, "h0"))
    call_op(ctx, side, "tick")
    ctx.reach(before)
    ctx.check(val(root.shutdown()) == S.SHUTDOWN, "and shut down again")


_RUDE = []


def make_rude():
    if not _RUDE:
        @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
        class RudeNode(FlowControl):
            def _do_setup(self):
                for c in self.children:
                    c.setup()
                return Ok(S.IDLE)

            def _do_tick(self):
                return Ok(S.SUCCEEDED)

            def _do_untick(self):
                return Ok(S.IDLE)

            def _do_reset(self):
                return Ok(S.IDLE)

            def _do_shutdown(self):
                if self.mode == ERR:
                    return Err(BehaviorTreeException("own"))
                return Ok(S.SHUTDOWN)
        _RUDE.append(RudeNode)
    return _RUDE[0]


def harnesses(tier):
    t = tier == "thorough"
    out = []
    n = 3 if t else 2
    for o in list(FLOW) + list(DECO):
        out.append(H("good/" + o, good, dict(outer=o, inner=None, n=n, steps=2), "%d children, setup, 2 ticks, then untick/reset/shutdown(+setup); child results symbolic" % n,
                     reach=("untick", "reset", "shutdown")))
        for i in ((list(FLOW) + list(DECO)) if t else ("Sequence", "Inverter")):
            out.append(H("good/%s/%s" % (o, i), good, dict(outer=o, inner=i, n=2 if not t else 2, steps=1), "two levels, 1 tick", reach=("untick", "reset", "shutdown")))
        for op in ("setup", "untick", "reset", "shutdown"):
            for tk in (False, True):
                if op == "setup" and tk:
                    continue
                out.append(H("bad/%s/%s%s" % (o, op, "/ticked" if tk else ""), bad, dict(outer=o, n=n, op=op, ticked=tk),
                             "%d children, each may fail its %s (symbolic)" % (n, op), reach=("failed",)))
        for i in (None, "Sequence", "Inverter") if t else (None,):
            out.append(H("broken/%s/%s" % (o, i or "-"), broken, dict(outer=o, inner=i, n=n if not i else 2, ops=2), "setup, tick and one more call, every call on every child may fail, then shutdown and setup",
                         reach=("failed",)))
    for group in (LEAVES, GETTERS, {k: inner_spec(k) for k in list(FLOW) + list(DECO)}):
        for name, spec in group.items():
            out.append(H("library/" + name, library, dict(spec=spec), "never set up, or setup failed (no ROS node; in a Sequence behind a child that may fail), then shutdown, setup, tick, shutdown",
                         reach=("new", "in a sequence", "no ROS"), real_floats=name in ("Wait", "Throttle", "ThrottleSuccess", "TopicMemorySubscriber")))
    out.append(H("own-shutdown", own, dict(n=2), "2 children, own and child shutdown results symbolic", reach=("own failed", "own ok")))
    return out
