"""Parallel / ParallelFailureTolerance semantics."""
from harness.common import *
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance


def make(ctx, cls, n, log, need, tol, **k):
    node = cls(name="n")
    ctx.check(node.node_config.inputs["needed_successes"].set_value(need).is_ok(), "a positive success threshold is accepted")
    if tol is not None:
        ctx.check(node.node_config.inputs["tolerate_failures"].set_value(tol).is_ok(), "a non-negative tolerance is accepted")
    return node, probes(ctx, node, n, log, **k)


def drive(ctx, cls, n, steps):
    log = []
    need = ctx.int("need", 1, n + 2)
    tol = ctx.int("tol", 0, n + 1) if cls is ParallelFailureTolerance else None
    node, kids = make(ctx, cls, n, log, need, tol, ticks=ALL4)
    r = node.setup()
    if need > n:
        ctx.check(r.is_err(), "setup is refused when there are fewer children than needed successes")
        ctx.check(node.state == S.BROKEN, "a refused setup leaves the node BROKEN")
        ctx.reach("refused")
        return
    ctx.check(val(r) == S.IDLE, "setup succeeds and leaves the node IDLE")
    allowed = n - need if tol is None else tol
    fin = {c.tag: None for c in kids}
    last = None
    for k in range(steps):
        op = "tick" if k == 0 else ctx.pick("op%d" % k, ["tick", "untick", "reset"])
        at = len(log)
        if op != "tick":
            ctx.check(val(getattr(node, op)()) == S.IDLE, op + " leaves the node IDLE")
            for c in kids:
                ctx.check(quiet(c), "no child runs in the background after " + op)
            fin = {c.tag: None for c in kids}
            last = None
            continue
        res = val(node.tick())
        if last is not None:
            for c in kids:
                ctx.check(c.tag in [t for (o, t, _) in log[at:] if o == "reset"], "children are reset on the tick after a result")
            fin = {c.tag: None for c in kids}
        got = ticks_of(log, at)
        must = [t for t in fin if fin[t] is None]
        err = False
        for t, r in got:
            ctx.check(t in must, "a finished child is not ticked again and no child is ticked twice")
            must.remove(t)
            if r == ERR:
                err = True
            elif r != R:
                fin[t] = r
        if err:
            ctx.check(res == ERR, "a child's error is reported")
            ctx.check(node.state == S.BROKEN, "a child's error leaves the node BROKEN")
            ctx.reach("err")
            return
        ctx.check(must == [], "every unfinished child is ticked")
        nsu = sum(1 for v in fin.values() if v is not None and v == SU)
        nfa = sum(1 for v in fin.values() if v is not None and v == F)
        if nsu >= need:
            exp = SU
        elif nfa > allowed:
            exp = F
        else:
            exp = R
        ctx.check(res == exp, "the result follows from the thresholds")
        ctx.check(node.state == res, "the node's state is the returned result")
        ctx.observe("t%d" % k, res)
        if exp == R:
            ctx.reach("running")
            last = None
            ctx.check(not any(o == "untick" for o, _, _ in log[at:]), "running children are left alone while undecided")
        else:
            ctx.reach("succeeded" if exp == SU else "failed")
            last = exp
            for c in kids:
                ctx.check(quiet(c), "unfinished children are unticked once the result is decided")


def harnesses(tier):
    cfg = [(1, 3), (2, 3), (3, 2)] if tier == "quick" else [(1, 4), (2, 3), (3, 3), (4, 2)]
    out = []
    for c in (Parallel, ParallelFailureTolerance):
        for n, k in cfg:
            out.append(H("%s-n%d" % (c.__name__, n), drive, dict(cls=c, n=n, steps=k),
                         "%d children, histories of %d tick/untick/reset calls, thresholds and child results symbolic" % (n, k),
                         reach=("refused", "err", "running", "succeeded", "failed") if n > 1 else ("refused", "err", "running", "succeeded")))
    return out
