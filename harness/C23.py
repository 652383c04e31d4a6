"""Action nodes: histories of ticks, new inputs, answers of the action server, interruptions and time.

The oracle looks at what the action server sees: which goals it gets, which of them it is asked to cancel."""
import types

from harness.C22 import *
from ros_bt_py.ros_nodes.action import Action
from ros_bt_py.data_types import RosActionType, RosActionName
from vf_msgs.action import Mix

ASSUMPTIONS = ["timeouts are multiples of 1/8 s, the clock has ns resolution and never goes back", "answers of the server arrive between two calls of the node (the executor's threads don't preempt a tick)",
               "goals the server doesn't answer are unspecified, as are results that arrive while the goal is cancelled"]
OKAY, CANCELED, ABORTED = 4, 5, 6


def settled(g):
    """The server doesn't execute the goal, or was asked to cancel it."""
    return g["state"] in ("rejected", "finished") or bool(g["cancel_futures"])


class Server:
    def __init__(self, ctx):
        self.ctx, self.goals = ctx, stubs.world().goals

    def new(self, before):
        for g in self.goals[before:]:
            g.update(state="sent", abandoned=False)
        return self.goals[before:]

    def accept(self, g, yes=True):
        g["accepted"] = yes
        g["state"] = "running" if yes else "rejected"
        g["future"].set_result(stubs.GoalHandle(g))
        if yes and g["abandoned"]:
            self.ctx.check(settled(g), "a goal that is accepted after nobody waits for it any more is cancelled")
            self.ctx.reach("abandoned")

    def finish(self, g, result, status):
        f = g["result_futures"][-1]
        g["state"] = "finished"
        f.set_result(None if result is None else types.SimpleNamespace(status=status, result=result))


def action(ctx, steps, ops, start=()):
    w = stubs.world()
    w.now_ns = ctx.int("t0", 0, 1 << 50)
    s, ns = timeout(ctx)
    n = Action(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"),
               new_inputs={"action_type": RosActionType(value=Mix, interface_id=1), "timeout_seconds": FloatType(value=s, allow_dynamic=False), "action_name": RosActionName(interface_id=1, is_static=False),
                           "order": field("int32"), "tag": field("string")})
    ok(ctx, n.setup(), "setup")
    order, tag, name, names = ctx.int("order", -5, 5), "t0", "/n0", 0

    def inputs():
        for k, v in (("action_name", name), ("order", order), ("tag", tag)):
            inp(ctx, n, k, v)
    inputs()
    srv = Server(ctx)

    def out(k):
        ctx.check(k in n.node_config.outputs, "there are outputs for all fields of result and feedback")
        v = n.node_config.outputs[k].get_value()
        ctx.check(v.is_ok(), "results and feedback are put out")
        return v.unwrap()
    idle, stale, cur, done, fb, expired, noticed, waited = True, False, None, None, None, False, None, 0

    def tick(i, dt):
        nonlocal idle, stale, cur, done, fb, expired, noticed, waited
        w.now_ns += dt
        before, had = len(w.goals), done
        asked = cur is not None and len(cur["cancel_futures"])
        answered = asked and any(f.done() for f in cur["cancel_futures"])
        if cur is not None and cur["state"] == "running" and noticed is None:
            noticed, first = w.now_ns, True
        else:
            first = False
        r = n.tick()
        ctx.check(not r.is_err(), "executing an action is no error")
        r = r.unwrap()
        new = srv.new(before)
        ctx.check(sum(not c.destroyed for c in w.action_clients) <= 1 + sum(g["abandoned"] and g["state"] == "sent" for g in w.goals), "there is at most one client")
        if idle:
            ctx.check(len(new) == 1, "the goal is sent on the first tick")
        ctx.check(len(new) <= 1, "at most one goal is sent per tick")
        if new:
            g = new[0]
            ctx.check(idle or stale, "a goal is sent again only after an interruption or for new inputs")
            ctx.check(not g["client"].destroyed and g["client"].action_name == name, "the goal goes to the action that was asked for")
            ctx.check(g["goal"] is not None, "a goal is sent")
            ctx.check(sym_and(g["goal"].order == order, g["goal"].tag == tag), "the goal holds the current inputs")
            ctx.check(r == R, "a node that sent a goal is running")
            for o in w.goals[:before]:
                ctx.check(settled(o) or o["abandoned"], "goals are cancelled before new ones are sent")
            if cur is not None and not idle:
                ctx.reach("replaced")
            idle, stale, cur, done, fb, expired, noticed, waited = False, False, g, None, None, False, None, 0
            ctx.reach("sent")
            return r
        if stale:
            ctx.check(r != SU, "the result of an outdated goal is no success")
            waited += 1
            return r
        if had is not None:
            ctx.check(r == had, "without new inputs the result stays the same")
            ctx.reach("kept")
            return r
        g = cur
        if g["state"] == "rejected":
            ctx.check(r == F, "a rejected goal is a failure")
            ctx.reach("rejected")
        elif asked:
            ctx.check(r == (F if answered else R), "a goal that timed out is a failure once it is cancelled")
            if answered:
                ctx.reach("timeout")
        elif g["state"] == "finished" and not expired:
            ctx.check(r == (SU if g["status"] == OKAY else F), "the node succeeds iff the action succeeded")
            if r == SU:
                ctx.check(sym_and(out("result.total") == g["result"].total, out("result.why") == g["result"].why), "the outputs are the result of the current goal")
            ctx.reach("succeeded" if r == SU else "failed")
        elif g["state"] == "running":
            ctx.check(r == R, "a node whose goal is executed is running")
            late = w.now_ns - noticed
            cancelled = len(g["cancel_futures"]) > 0
            if cancelled or g["result_futures"] and g["result_futures"][-1].cancelled():
                ctx.check(late >= ns, "a goal isn't cancelled before its timeout")
                if expired:
                    ctx.check(cancelled, "a goal that timed out is cancelled")
                expired = True
            else:
                ctx.check(not expired and late <= ns, "a goal is cancelled after its timeout")
                if fb is not None and not first:
                    ctx.check(out("feedback.progress") == fb, "the feedback output is the latest feedback of the current goal")
                    ctx.reach("feedback")
        elif g["state"] == "sent":
            ctx.check(r == R, "a node that waits for an answer is running")
        if r == SU or r == F:
            done = r
        return r

    for i in range(steps):
        op = start[i] if i < len(start) else ctx.pick("op%d" % i, ops)
        if op == "tick":
            tick(i, ctx.int("dt%d" % i, 0, 1 << 50))
        elif op == "order":
            v = ctx.int("order%d" % i, -5, 5)
            ctx.assume(v != order)
            order, stale = v, True
            inp(ctx, n, "order", order)
        elif op == "name":
            names += 1
            name, stale = "/n%d" % names, True
            inp(ctx, n, "action_name", name)
        elif op in ("accept", "reject"):
            if cur is not None and cur["state"] == "sent":
                srv.accept(cur, op == "accept")
        elif op == "accept old":
            for g in w.goals:
                if g["state"] == "sent" and g is not cur:
                    srv.accept(g)
        elif op in ("succeed", "abort", "cancel", "no result"):
            if cur is not None and cur["state"] == "running" and cur["result_futures"] and not cur["result_futures"][-1].cancelled() and not cur["cancel_futures"]:
                cur["result"] = None if op == "no result" else Mix.Result(total=ctx.int("total%d" % i, -5, 5), why="w%d" % i)
                cur["status"] = {"succeed": OKAY, "abort": ABORTED, "cancel": CANCELED, "no result": 0}[op]
                srv.finish(cur, cur["result"], cur["status"])
        elif op in ("feedback", "feedback old"):
            gs = [g for g in w.goals if g["state"] == "running" and (g is cur) == (op == "feedback")]
            if gs:
                v = ctx.int("progress%d" % i, 0, 100) / 4
                gs[-1]["feedback"](types.SimpleNamespace(feedback=Mix.Feedback(progress=v)))
                if op == "feedback":
                    fb = v
        elif op == "ack":
            for g in w.goals:
                for f in g["cancel_futures"]:
                    if not f.done():
                        f.set_result(types.SimpleNamespace(return_code=0))
                        g["state"] = "finished"
        else:
            ok(ctx, getattr(n, op)(), op)
            for g in w.goals:
                if g["state"] == "sent":
                    g["abandoned"] = True
                else:
                    ctx.check(settled(g), "an interrupted node leaves no goal behind")
            if op == "shutdown":
                ctx.check(sum(not c.destroyed for c in w.action_clients) <= sum(g["state"] == "sent" for g in w.goals), "a node that is shut down has no client")
                ok(ctx, n.setup(), "setup")
                inputs()
            idle, done, cur = True, None, None
            ctx.reach("stopped")
    # In the end the goal for the newest inputs is executed, whatever happened before, if the server answers.
    if stale or idle:
        for i in range(8):
            for g in list(w.goals):
                if g["state"] == "sent":
                    srv.accept(g)
                for f in g["cancel_futures"]:
                    if not f.done():
                        f.set_result(types.SimpleNamespace(return_code=0))
                        g["state"] = "finished"
            tick(steps + i, 0)
            if not stale and not idle:
                break
        ctx.check(not stale and not idle, "a goal for new inputs is sent in the end")
        ctx.reach("in the end")


def utility(ctx):
    def make():
        return Action(node_id=U(1), name="s", ros_node=rclpy.node.Node("n"),
                      new_inputs={"action_type": RosActionType(value=Mix, interface_id=1), "timeout_seconds": FloatType(value=2.0, allow_dynamic=False), "action_name": RosActionName(interface_id=1, is_static=False),
                                  "order": field("int32"), "tag": field("string")})

    def fill(n):
        for k, v in (("action_name", "/n0"), ("order", 1), ("tag", "t")):
            inp(ctx, n, k, v)
    can_execute(ctx, make, fill)


def harnesses(tier):
    t = tier == "thorough"
    k = 4 if t else 3
    every = ["tick", "order", "name", "accept", "reject", "accept old", "succeed", "abort", "feedback", "ack", "untick", "reset", "shutdown"]
    hs = []

    def add_h(name, start, ops, reach, extra=k):
        hs.append(H(name, action, dict(steps=len(start) + extra, ops=ops, start=start), "%s, then %d operations of %d" % (", ".join(start), extra, len(ops)), reach=reach, real_floats=True, max_paths=400000, samples=4))
    add_h("fresh", (), every, ("sent", "stopped"))
    add_h("sent", ("tick",), every, ("sent", "stopped", "rejected", "in the end"))
    add_h("accepted", ("tick", "accept", "tick"), every + ["cancel", "no result"], ("sent", "stopped", "succeeded", "failed", "in the end"))
    add_h("expired", ("tick", "accept", "tick", "tick", "tick"), ["tick", "ack", "order", "untick", "reset", "succeed"], ("stopped", "timeout", "in the end"))
    add_h("finished", ("tick", "accept", "tick", "succeed", "tick"), ["tick", "order", "name", "untick", "reset", "feedback old", "accept"], ("kept", "in the end"))
    add_h("aborted", ("tick", "accept", "tick", "abort", "tick"), ["tick", "order", "untick"], ("kept", "in the end"))
    add_h("feedback", ("tick", "accept", "tick", "feedback", "tick"), ["tick", "order", "ack", "feedback", "feedback old", "accept", "succeed"], ("feedback",))
    add_h("replaced", ("tick", "accept", "tick", "order", "tick"), ["tick", "order", "name", "ack", "untick", "succeed", "reset"], ("in the end",))
    add_h("replaced/later", ("tick", "accept", "tick", "order", "tick", "tick", "ack", "tick", "tick", "tick"), ["tick", "accept", "feedback", "feedback old", "succeed", "untick"], ("replaced", "sent"))
    add_h("replaced/early", ("tick", "order", "tick"), ["tick", "order", "accept", "reject", "untick", "reset", "ack"], ("in the end",))
    add_h("interrupted", ("tick", "untick", "tick"), ["tick", "accept", "accept old", "feedback old", "untick", "shutdown", "order"], ("abandoned", "in the end"))
    add_h("interrupted/feedback", ("tick", "accept", "tick", "untick", "feedback old", "tick", "accept", "tick"), ["tick", "feedback", "feedback old", "untick"], ("sent",), 3)
    add_h("reset", ("tick", "reset", "tick"), ["tick", "accept", "accept old", "untick", "reset", "order"], ("abandoned", "in the end"))
    add_h("shutdown", ("tick", "shutdown"), ["tick", "accept", "accept old", "untick", "reset", "order"], ("abandoned", "in the end"))
    hs.append(H("utility", utility, {}, "3 operations, the action server available or not after each", reach=("can", "can't")))
    return hs
