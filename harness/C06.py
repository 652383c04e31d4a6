"""NameSwitch / EnumSwitch: exactly the selected child executes."""
from harness.common import *
from ros_bt_py.nodes.fallback import NameSwitch
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py.data_types import RosComponentType


def named(ctx, node, names, log):
    out = []
    for nm in names:
        p = probe(ctx, nm, log, ticks=ALL4)
        ok(ctx, node.add_child(p), "add_child")
        out.append(p)
    return out


def run(ctx, node, kids, log, steps, key, choose, match):
    c = node.node_config.inputs[key]
    ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    last = None
    for k in range(steps):
        op = ctx.pick("op%d" % k, ["tick", "untick", "reset"]) if k else "tick"
        at = len(log)
        if op != "tick":
            ctx.check(val(getattr(node, op)()) == S.IDLE, op + " leaves the node IDLE")
            for p in kids:
                ctx.check(quiet(p), "no child runs in the background after " + op)
                ctx.check(p.state == S.IDLE, op + " reaches every child")
            last = None
            continue
        v = choose(k)
        ctx.check(c.set_value(v).is_ok(), "a selection value of the right type is accepted")
        res = val(node.tick())
        got = ticks_of(log, at)
        sel = None
        for p in kids:
            if match(p.tag, v):
                sel = p
        if sel is None:
            ctx.check(got == [], "nothing is executed when no child matches")
            ctx.check(res == F, "a selection without matching child FAILS")
            for p in kids:
                ctx.check(quiet(p), "no child keeps running when no child matches")
            ctx.reach("nomatch")
            last = F
            continue
        ctx.check(len(got) == 1 and got[0][0] == sel.tag, "exactly the selected child is ticked")
        r = got[0][1]
        ctx.check(res == r, "the selected child's result is forwarded")
        if last is not None:
            i = [n for n in range(at, len(log)) if log[n][0] == "tick"][0]
            ctx.check(sel.tag in [t for (o, t, _) in log[at:i] if o == "reset"], "after a result the child is reset before it runs again")
        for p in kids:
            if p is not sel:
                ctx.check(quiet(p), "children that are not selected are stopped")
        ctx.observe("t%d" % k, res)
        if r == ERR:
            ctx.check(node.state == S.BROKEN, "a child's error leaves the node BROKEN")
            ctx.reach("err")
            return
        ctx.check(node.state == r, "the node's state is the returned result")
        last = None if r == R else r
        ctx.reach("running" if r == R else "done")


def names(ctx, n, steps):
    log = []
    node = NameSwitch(name="n")
    kids = named(ctx, node, ["a", "b", "cc"][:n], log)
    run(ctx, node, kids, log, steps, "name", lambda k: ctx.str("name%d" % k, 3), lambda tag, v: v == tag)


def enum(ctx, which, n, steps):
    from vf_msgs.msg import Enum, SEnum
    log = []
    cls = {"Enum": Enum, "SEnum": SEnum}[which]
    consts = {"Enum": {"A": 0, "B": 1, "C": 7}, "SEnum": {"X": "one", "Y": "two"}}[which]
    node = EnumSwitch(name="n", new_inputs={"ros_message_type": RosComponentType(value=cls)})
    kids = named(ctx, node, list(consts)[:n], log)
    ch = (lambda k: ctx.int("case%d" % k, -3, 300)) if which == "Enum" else (lambda k: ctx.str("case%d" % k, 4))
    run(ctx, node, kids, log, steps, "case", ch, lambda tag, v: v == consts[tag])


def harnesses(tier):
    t = tier == "thorough"
    k = 4 if t else 3
    full = ("nomatch", "err", "running", "done")
    out = [H("NameSwitch-n%d" % n, names, dict(n=n, steps=k), "%d children, %d calls, names symbolic text <=3" % (n, k), reach=full) for n in ((1, 2, 3) if t else (1, 2))]
    out.append(H("EnumSwitch-int", enum, dict(which="Enum", n=2, steps=k), "2 children of 3 constants, %d calls, case symbolic int" % k, reach=full))
    out.append(H("EnumSwitch-str", enum, dict(which="SEnum", n=2, steps=k), "2 children, %d calls, case symbolic text <=4" % k, reach=full))
    return out
