"""Decorators: result mapping, retry / repeat counters, Optional, Watch."""
from harness.common import *
from ros_bt_py.nodes import decorators as D


def mk(ctx, cls, log, inputs, child=True, **k):
    node = cls(name="n")
    for key, v in inputs.items():
        ctx.check(node.node_config.inputs[key].set_value(v).is_ok(), "in-range option value is accepted")
    kids = probes(ctx, node, 1, log, **k) if child else []
    return node, kids


REMAP = {
    "IgnoreFailure": lambda r, b: SU if r == F else r,
    "IgnoreSuccess": lambda r, b: F if r == SU else r,
    "Inverter": lambda r, b: SU if r == F else F if r == SU else r,
    "IgnoreRunning": lambda r, b: (SU if b else F) if r == R else r,
}
AGAIN = {  # child results that are reported as RUNNING and restart the child
    "UntilSuccess": (F,), "RepeatIfFail": (F,), "RepeatUntilFail": (SU,), "RepeatAlways": (SU, F),
}


def between(ctx, node, kids, k, log):
    """Optionally untick or reset between two ticks; returns the op."""
    op = ctx.pick("op%d" % k, ["none", "untick", "reset"])
    if op == "none":
        return op
    st = val(getattr(node, op)())
    ctx.check(sym_or(st == S.IDLE, st == S.PAUSED) if op == "untick" else st == S.IDLE, op + " ends in an idle state")
    for c in kids:
        ctx.check(quiet(c), "the child does not run in the background after " + op)
        ctx.check(c.state == S.IDLE, op + " reaches the child")
    return op


def one_tick(ctx, node, kid, log):
    at = len(log)
    res = val(node.tick())
    got = ticks_of(log, at)
    ctx.check(len(got) == 1, "the child is ticked exactly once per tick")
    r = got[0][1]
    if r == ERR:
        ctx.check(res == ERR, "a child's error is reported")
        ctx.check(node.state == S.BROKEN, "a child's error leaves the node BROKEN")
        ctx.reach("err")
        return r, res, True
    ctx.check(node.state == res, "the node's state is the returned result")
    return r, res, False


def stateless(ctx, name, steps):
    log = []
    b = ctx.bool("running_is_success") if name == "IgnoreRunning" else None
    node, kids = mk(ctx, getattr(D, name), log, {} if b is None else {"running_is_success": b}, ticks=ALL4)
    ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    ctx.check(kids[0].state == S.IDLE, "setup reaches the child")
    for k in range(steps):
        if k:
            between(ctx, node, kids, k, log)
        r, res, err = one_tick(ctx, node, kids[0], log)
        if err:
            return
        ctx.check(res == REMAP[name](r, b), "the result is the documented mapping of the child's")
        ctx.observe("t%d" % k, res)
        ctx.reach("mapped")


def again(ctx, name, steps):
    log = []
    node, kids = mk(ctx, getattr(D, name), log, {}, ticks=ALL4)
    ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    ctx.check(kids[0].state == S.IDLE, "setup reaches the child")
    for k in range(steps):
        if k:
            between(ctx, node, kids, k, log)
        r, res, err = one_tick(ctx, node, kids[0], log)
        if err:
            return
        if any(bool(r == x) for x in AGAIN[name]):
            ctx.check(res == R, "a result that triggers a restart is reported as RUNNING")
            ctx.check(kids[0].state == S.IDLE, "the child is reset before it is run again")
            ctx.check(log[-1][0] == "reset", "the child is reset before it is run again")
            ctx.reach("again")
        else:
            ctx.check(res == r, "other results are forwarded")
            ctx.check(kids[0].state == r, "the child is not reset on a forwarded result")
        ctx.observe("t%d" % k, res)


def counted(ctx, name, steps, hi):
    """Retry / Repeat / RepeatNoAutoReset: exact number of extra executions."""
    log = []
    opt, counts = {"Retry": ("num_retries", F), "Repeat": ("num_repeats", SU), "RepeatNoAutoReset": ("num_repeats", SU)}[name]
    lim = ctx.int("limit", 0 if name == "Retry" else 1, hi)
    node, kids = mk(ctx, getattr(D, name), log, {opt: lim}, ticks=ALL4)
    kid = kids[0]
    noauto = name == "RepeatNoAutoReset"
    if noauto:
        rst = node.node_config.inputs["reset"]
    ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    if noauto:
        ctx.check(rst.set_value(False).is_ok(), "reset input accepts False")
    used = 0
    for k in range(steps):
        if k:
            if between(ctx, node, kids, k, log) == "reset" and not noauto:
                used = 0
        if noauto and k:
            v = ctx.bool("reset%d" % k)
            ctx.check(rst.set_value(v).is_ok(), "reset input accepts a bool")
            if v:
                used = 0
        if noauto and used >= lim:
            at = len(log)
            ctx.check(val(node.tick()) == SU, "the node keeps SUCCEEDED once the repeats are used up")
            ctx.check(ticks_of(log, at) == [], "the child is not executed again once the repeats are used up")
            ctx.reach("used up")
            continue
        r, res, err = one_tick(ctx, node, kid, log)
        if err:
            return
        ctx.observe("t%d" % k, res)
        if r == counts and used < lim:
            used += 1
            ctx.check(res == R, "a counted child result below the limit is reported as RUNNING")
            ctx.check(kid.state == S.IDLE, "the child is reset before the next repetition")
            ctx.reach("again")
        else:
            ctx.check(res == r, "uncounted results and the one past the limit are forwarded")
            if r != R:
                ctx.reach("end")
                if not noauto:
                    # a definite result ends the run; a new one starts with a reset
                    ctx.check(val(node.reset()) == S.IDLE, "reset works after a result")
                    ctx.check(kid.state == S.IDLE, "reset reaches the child")
                    used = 0


def optional(ctx, steps):
    log = []
    can = ctx.bool("can_execute")
    lo = ctx.int("cost", -5, 5)
    ub = UtilityBounds(can_execute=can, has_lower_bound_success=True, lower_bound_success=lo)
    kinds = ctx.pick("util_err", [False, True])
    node, kids = mk(ctx, D.Optional, log, {}, ticks=ALL4, utility=Err(BehaviorTreeException("u")) if kinds else Ok(ub))
    r = node.setup()
    if kinds:
        ctx.check(r.is_err(), "setup fails when the child's executability cannot be determined")
        return
    ctx.check(val(r) == S.IDLE, "setup succeeds")
    u = ok(ctx, node.calculate_utility(), "calculate_utility")
    ctx.check(u.can_execute == True, "an optional node can always execute")  # noqa: E712
    if can:
        ctx.check(sym_and(u.has_lower_bound_success, u.lower_bound_success == lo), "the executable child's bounds are forwarded")
        ctx.check(sym_not(sym_or(u.has_upper_bound_success, u.has_lower_bound_failure, u.has_upper_bound_failure)), "no bound is invented")
        for k in range(steps):
            if k:
                between(ctx, node, kids, k, log)
            r, res, err = one_tick(ctx, node, kids[0], log)
            if err:
                return
            ctx.check(res == r, "results of an executable child are forwarded")
            ctx.observe("t%d" % k, res)
        ctx.reach("executes")
    else:
        ctx.check(sym_not(sym_or(u.has_lower_bound_success, u.has_upper_bound_success, u.has_lower_bound_failure, u.has_upper_bound_failure)),
                  "no bounds are given for a child that cannot execute")
        for k in range(steps):
            op = ctx.pick("op%d" % k, ["tick", "untick", "reset"])
            ctx.check(val(getattr(node, op)()) == (SU if op == "tick" else S.IDLE), "without an executable child the node just succeeds")
        ctx.check(log == [], "a child that cannot execute is never called")
        ctx.reach("skipped")


def watch(ctx, steps):
    log = []
    node, kids = mk(ctx, D.Watch, log, {}, ticks=ALL4)
    c = node.node_config.inputs["watch"]
    ctx.check(val(node.setup()) == S.IDLE, "setup succeeds")
    ctx.check(c.set_value("v").is_ok(), "text is accepted")
    for k in range(steps):
        op = between(ctx, node, kids, k, log) if k else "none"
        changed = False
        if k:
            changed = ctx.bool("changed%d" % k)
            if changed:
                ctx.check(c.set_value("v%d" % k).is_ok(), "text is accepted")
        at = len(log)
        r, res, err = one_tick(ctx, node, kids[0], log)
        if err:
            return
        ctx.check(res == r, "the child's result is forwarded")
        un = [i for i in range(at, len(log)) if log[i][0] == "untick"]
        ti = [i for i in range(at, len(log)) if log[i][0] == "tick"]
        if changed:
            ctx.check(len(un) == 1 and un[0] < ti[0], "a changed watch value unticks the child before it is ticked")
            ctx.reach("changed")
        elif k and op != "reset":
            ctx.check(un == [], "the child is not interrupted while the watch value stays the same")
            ctx.reach("same")


EMPTY = {"IgnoreFailure": SU, "IgnoreRunning": F, "IgnoreSuccess": F, "UntilSuccess": SU, "Inverter": SU, "Retry": SU, "Repeat": SU,
         "RepeatNoAutoReset": SU, "RepeatAlways": SU, "RepeatUntilFail": SU, "RepeatIfFail": SU, "Optional": SU, "Watch": SU}


def empty(ctx):
    name = ctx.pick("cls", sorted(EMPTY))
    inp = {}
    if name == "IgnoreRunning":
        inp = {"running_is_success": ctx.bool("b")}
    elif name == "Retry":
        inp = {"num_retries": ctx.int("n", 0, 9)}
    elif name.startswith("Repeat") and name in ("Repeat", "RepeatNoAutoReset"):
        inp = {"num_repeats": ctx.int("n", 1, 9)}
    node, _ = mk(ctx, getattr(D, name), [], inp, child=False)
    ctx.check(val(node.setup()) == S.IDLE, "setup without a child succeeds")
    if name == "RepeatNoAutoReset":
        node.node_config.inputs["reset"].set_value(ctx.bool("r"))
    if name == "Watch":
        node.node_config.inputs["watch"].set_value("x")
    for k in range(2):
        ctx.check(val(node.tick()) == EMPTY[name], "a decorator without child has its documented result")
        st = val(node.untick())
        ctx.check(sym_or(st == S.IDLE, st == S.PAUSED), "untick works without a child")
        ctx.check(val(node.reset()) == S.IDLE, "reset works without a child")


def harnesses(tier):
    t = tier == "thorough"
    out = []
    for n in REMAP:
        out.append(H(n, stateless, dict(name=n, steps=4 if t else 3), "%d ticks with untick/reset between, child results and option symbolic" % (4 if t else 3), reach=("err", "mapped")))
    for n in AGAIN:
        out.append(H(n, again, dict(name=n, steps=4 if t else 3), "%d ticks with untick/reset between, child results symbolic" % (4 if t else 3), reach=("err", "again")))
    for n in ("Retry", "Repeat", "RepeatNoAutoReset"):
        st = 5 if t else 4
        if n == "RepeatNoAutoReset":
            st -= 1
        out.append(H(n, counted, dict(name=n, steps=st, hi=st), "limit symbolic up to %d, %d ticks with untick/reset between, child results symbolic" % (st, st),
                     reach=("err", "again", "end")))
    out.append(H("Optional", optional, dict(steps=4 if t else 3), "3 (4) ticks, executability and utility symbolic", reach=("executes", "skipped")))
    out.append(H("Watch", watch, dict(steps=4 if t else 3), "3 (4) ticks, changes of the watched value symbolic", reach=("changed", "same")))
    out.append(H("childless", empty, {}, "every decorator without a child, 2 rounds of tick/untick/reset"))
    return out
