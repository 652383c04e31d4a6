"""Sequence / MemorySequence semantics."""
from harness.common import *
from ros_bt_py.nodes.sequence import Sequence, MemorySequence


def drive(ctx, cls, n, steps, memory, go_on, untick_clears):
    """go_on: the child result that lets execution continue with the next child."""
    node = cls(name="n")
    log = []
    kids = probes(ctx, node, n, log, ticks=ALL4)
    ctx.check(node.setup() == Ok(S.IDLE), "setup succeeds and leaves the node IDLE")
    mem, last = 0, None
    for k in range(steps):
        op = "tick" if k == 0 else ctx.pick("op%d" % k, ["tick", "untick", "reset"])
        at = len(log)
        if op != "tick":
            r = getattr(node, op)()
            ctx.check(val(r) == S.IDLE, op + " leaves the node IDLE")
            for c in kids:
                ctx.check(quiet(c), "no child runs in the background after " + op)
                ctx.check(c.state == S.IDLE, "children are IDLE after " + op)
            if op == "reset" or untick_clears:
                mem = 0
            last = None
            continue
        res = val(node.tick())
        if last is not None:
            # a result was returned before: every child starts over before it is ticked
            resets = [t for (o, t, _) in log[at:] if o == "reset"]
            for c in kids:
                ctx.check(c.tag in resets, "children are reset on the tick after a result")
            first_tick = [i for i, e in enumerate(log) if i >= at and e[0] == "tick"]
            for i, e in enumerate(log):
                if i >= at and e[0] == "reset" and first_tick:
                    ctx.check(i < first_tick[0], "children are reset before any of them is ticked again")
            mem = 0
        got = ticks_of(log, at)
        exp, j, stop = go_on, 0, None
        for i in range(mem if memory else 0, n):
            if j >= len(got) or got[j][0] != kids[i].tag:
                ctx.fail("children are ticked in order, starting at the remembered child")
            r = got[j][1]
            j += 1
            if r != go_on:
                exp, stop = r, i
                break
        ctx.check(j == len(got), "no child after the deciding one is ticked")
        ctx.check(res == exp, "the result is the one the children determine")
        ctx.check(node.state == (S.BROKEN if res == ERR else exp), "the node's state is the returned result")
        if res == ERR:
            ctx.reach("err")
            return
        if exp == R:
            mem = stop
            last = None
            ctx.reach("running")
            for o, t, _ in log[at:]:
                ctx.check(o != "untick", "remaining children are not unticked while a child is RUNNING")
        else:
            mem = 0
            last = exp
            ctx.reach("done" if exp == go_on else "stopped")
            if stop is not None:
                for c in kids[stop + 1:]:
                    ctx.check(quiet(c), "children after the deciding one do not run in the background")
                    ctx.check(c.state == S.IDLE, "children after the deciding one are IDLE")
        ctx.observe("t%d" % k, res)


def empty(ctx, cls, result):
    node = cls(name="n")
    ctx.check(node.setup() == Ok(S.IDLE), "setup succeeds")
    for k in range(3):
        op = ctx.pick("op%d" % k, ["tick", "untick", "reset"])
        r = val(getattr(node, op)())
        ctx.check(r == (result if op == "tick" else S.IDLE), "a childless node has the documented result")


def harnesses(tier):
    return build(tier, Sequence, MemorySequence, SU, True)


def build(tier, cls, mcls, go_on, untick_clears):
    cfg = [(1, 4), (2, 4), (3, 3)] if tier == "quick" else [(1, 5), (2, 5), (3, 4), (4, 3)]
    out = []
    for n, k in cfg:
        for c, m in ((cls, False), (mcls, True)):
            out.append(H("%s-n%d" % (c.__name__, n), drive,
                         dict(cls=c, n=n, steps=k, memory=m, go_on=go_on, untick_clears=untick_clears),
                         "%d children, all histories of %d tick/untick/reset calls, every child result RUNNING/SUCCEEDED/FAILED/error symbolic" % (n, k),
                         reach=("err", "running", "done", "stopped")))
    for c in (cls, mcls):
        out.append(H("%s-empty" % c.__name__, empty, dict(cls=c, result=go_on), "no children, 3 calls"))
    return out
