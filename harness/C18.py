"""control_execution: every command in every state."""
from harness.edit import *

C = ControlTreeExecution.Request
CMDS = {"none": C.DO_NOTHING, "once": C.TICK_ONCE, "periodic": C.TICK_PERIODICALLY, "until": C.TICK_UNTIL_RESULT, "stop": C.STOP, "reset": C.RESET, "shutdown": C.SHUTDOWN,
        "setupshutdown": C.SETUP_AND_SHUTDOWN, "unknown": 42}
RUN = ["once", "periodic", "until", "stop", "reset", "shutdown"]
TS = TreeState
LOG = []
DECIDE = [None]


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class CRoot(Leaf):
    """Every result is decided when it is needed."""

    def _say(self, what, good):
        r = DECIDE[0](what)
        LOG.append((what, r))
        if r == "err":
            return Err(NodeConfigError(what + " failed"))
        if r == "raise":
            raise ValueError(what + " raised")
        return Ok(good if r == "ok" else {"R": S.RUNNING, "S": S.SUCCEEDED, "F": S.FAILED, "B": S.BROKEN}[r])

    def _do_setup(self):
        return self._say("setup", S.IDLE)

    def _do_tick(self):
        return self._say("tick", None)

    def _do_untick(self):
        return self._say("untick", S.IDLE)

    def _do_reset(self):
        return self._say("reset", S.IDLE)

    def _do_shutdown(self):
        return self._say("shutdown", S.SHUTDOWN)


def make(ctx, empty=False):
    m = manager()
    if not empty:
        t = TreeStructure(name="tree", nodes=[NodeStructure(module=__name__, node_class="CRoot", name="root", node_id=str(U(0)), child_ids=[], inputs=[], outputs=[], max_children=0)], tick_frequency_hz=10.0)
        ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    return m


def alive():
    return [t for t in stubs.world().threads if t.is_alive()]


def decider(ctx, tag, fails):
    """ok, or one of the results allowed for this call; at most `fails` failures in the whole run"""
    n, left = [0], [fails]

    def f(what):
        n[0] += 1
        opts = ["R", "S", "F"] if what == "tick" else ["ok"]
        if left[0]:
            opts = opts + ["err"] + (["raise"] if what in ("tick", "setup", "untick") and False else [])
        if len(opts) == 1:
            return opts[0]
        r = ctx.enum("%s%d.%s" % (tag, n[0], what), opts)
        for o in opts:
            if r == o:
                r = o
                break
        if r in ("err", "raise"):
            left[0] -= 1
        return r
    return f


def settled(ctx, m, root, what):
    """the state of the tree tells whether it runs"""
    st = m.state
    ctx.check(len(alive()) <= 1, what + ": at most one thread ticks the tree")
    ctx.check((st == TS.TICKING) == (len(alive()) == 1), what + ": the tree is TICKING exactly while a thread ticks it")
    if st == TS.EDITABLE and root is not None:
        ctx.check(root.state in (S.UNINITIALIZED, S.SHUTDOWN, S.BROKEN), what + ": no node of an editable tree is active")


def names(calls):
    return [c for c, _ in calls]


def failed(calls):
    return any(r in ("err", "raise") for _, r in calls)


def step(ctx, m, root, cmd, freq=10.0):
    pre, init = m.state, root is not None and root.state not in (S.UNINITIALIZED, S.SHUTDOWN)
    broken = root is not None and root.state is S.BROKEN
    LOG[:] = []
    r = call(m, "control_execution", C(command=CMDS[cmd], tick_frequency_hz=freq))
    post, calls = m.state, list(LOG)
    nm, bad = names(calls), failed(calls)
    if broken and not r.success:
        bad = True
    if not r.success and not (cmd == "stop" and pre not in (TS.TICKING, TS.WAITING_FOR_TICK)):
        ctx.check(len(r.error_message) > 0, "a refused or failed command says why")
    if r.success and cmd != "none":
        ctx.check(r.tree_state == post, "the answer holds the state of the tree")
    if pre == TS.ERROR and cmd not in ("shutdown",):
        ctx.check(not r.success and post == pre and not calls, "a tree in ERROR can only be shut down")
        ctx.reach("error")
    elif cmd == "unknown":
        ctx.check(not r.success and post == pre and not calls, "unknown commands are refused")
    elif cmd == "none":
        ctx.check(r.success and post == pre and not calls, "DO_NOTHING does nothing")
    elif cmd in ("once", "periodic", "until", "reset", "setupshutdown") and pre == TS.TICKING:
        ctx.check(not r.success and post == pre and not calls, "a ticking tree refuses everything but STOP and SHUTDOWN")
        ctx.reach("busy")
    elif cmd == "once":
        ctx.check(broken or nm == (["tick"] if init else ["setup"] if bad and nm == ["setup"] else ["setup", "tick"]), "TICK_ONCE ticks once and sets up before if needed")
        ctx.check(r.success == (not bad), "TICK_ONCE succeeds exactly if the tick did")
        ctx.check(post == (TS.ERROR if bad else TS.WAITING_FOR_TICK), "after TICK_ONCE the tree waits for the next tick, or is in ERROR")
        ctx.reach("once")
    elif cmd in ("periodic", "until"):
        ctx.check(r.success and post == TS.TICKING, "periodic ticking starts")
        ctx.reach("started")
    elif cmd == "reset":
        if init and not broken:
            ctx.check(nm == ["reset"], "RESET resets the root once")
            ctx.check(r.success == (not bad), "RESET succeeds exactly if resetting the root did")
        ctx.check(post == (TS.IDLE if r.success else pre), "a reset tree is IDLE, otherwise its state stays")
        ctx.reach("reset")
    elif cmd == "stop":
        stop(ctx, r, pre, post, nm, bad, broken)
        ctx.check(r.success == (pre in (TS.TICKING, TS.WAITING_FOR_TICK) and not bad), "STOP succeeds exactly if it stopped the tree")
    else:
        if cmd == "shutdown" and "shutdown" not in nm and bad:
            stop(ctx, r, pre, post, nm, bad, broken)
            ctx.check(not r.success, "SHUTDOWN of a tree that can't be stopped fails")
            ctx.reach("shutdown later")
        else:
            ctx.check(r.success == (not bad), "SHUTDOWN succeeds exactly if stopping and shutting down the root did")
            ctx.check((post == TS.EDITABLE) == r.success or not r.success and pre == TS.EDITABLE, "a tree is EDITABLE exactly if it was shut down")
            ctx.check(nm.count("shutdown") <= 1, "SHUTDOWN shuts down the root once")
            if init and r.success:
                ctx.check(nm[-1] == "shutdown", "SHUTDOWN shuts down the root after everything else")
            ctx.reach("shutdown")
    settled(ctx, m, root, "after " + cmd)
    return r


def stop(ctx, r, pre, post, nm, bad, broken):
    ctx.check("tick" not in nm, "a stopped tree is not ticked any more")
    if pre == TS.TICKING:
        ctx.check(bad or nm[-1] == "untick", "STOP stops the nodes")
        ctx.check(post == (TS.ERROR if bad else TS.IDLE), "a stopped tree is IDLE, or in ERROR if stopping failed")
        ctx.reach("stopped")
    elif pre == TS.WAITING_FOR_TICK:
        ctx.check(broken or nm == ["untick"], "STOP stops the nodes")
        ctx.check(post == (TS.ERROR if bad else TS.IDLE), "a stopped tree is IDLE, or in ERROR if stopping failed")
        ctx.reach("stopped")
    else:
        ctx.check(not nm and post == pre, "STOP does nothing if the tree does not run")


def advance(ctx, m, root, n, until):
    """let the ticking thread run n times to its next sleep"""
    for _ in range(n):
        if not alive():
            break
        init, broken = root.state not in (S.UNINITIALIZED, S.SHUTDOWN), root.state is S.BROKEN
        LOG[:] = []
        alive()[0].co.resume()
        calls = list(LOG)
        nm, bad = names(calls), failed(calls)
        res = [x for c, x in calls if c == "tick"]
        if broken:
            ctx.check(m.state == TS.ERROR and not alive(), "ticking a BROKEN tree leaves it in ERROR")
            continue
        if not init and calls == [("setup", "err")]:
            ctx.check(m.state == TS.ERROR and not alive(), "a failed setup leaves the tree in ERROR")
            continue
        want = ([] if init else ["setup"]) + ["tick"]
        if until and res in (["S"], ["F"]):
            want.append("untick")
            ctx.check(not alive() and m.state == (TS.ERROR if bad else TS.IDLE), "TICK_UNTIL_RESULT ends with the first result and leaves the tree IDLE")
            ctx.reach("result")
        elif bad:
            ctx.check(not alive() and m.state == TS.ERROR, "a failed tick leaves the tree in ERROR")
        else:
            ctx.check(len(alive()) == 1 and m.state == TS.TICKING, "ticking goes on")
        ctx.check(nm == want, "one period ticks the root exactly once")
        settled(ctx, m, root, "while ticking")


def commands(ctx, first, second, steps, fails):
    m = make(ctx)
    root = m.nodes[U(0)]
    DECIDE[0] = decider(ctx, "r", fails)
    until = False
    with stubs.coop():
        for s in range(steps):
            cmd = first if s == 0 else second if s == 1 and second else ctx.pick("c%d" % s, RUN + ["setupshutdown"] if s < steps - 1 else list(CMDS))
            was = m.state
            step(ctx, m, root, cmd)
            if was != TS.TICKING and m.state == TS.TICKING:
                until = cmd == "until"
            if m.state == TS.TICKING and s < steps - 1:
                advance(ctx, m, root, ctx.pick("n%d" % s, [0, 1, 2]), until)
    ctx.reach("done")


def recover(ctx, steps):
    """Whatever happened, shutting down twice brings a tree whose nodes can be shut down back to EDITABLE."""
    m = make(ctx)
    root = m.nodes[U(0)]
    base = decider(ctx, "r", 2)
    calm = []
    DECIDE[0] = lambda what: "ok" if calm and what != "tick" else base(what) if not calm else "R"
    with stubs.coop():
        for s in range(steps):
            step(ctx, m, root, ctx.pick("c%d" % s, ["once", "periodic", "stop", "reset", "shutdown"]))
            if m.state == TS.TICKING:
                advance(ctx, m, root, ctx.pick("n%d" % s, [0, 1]), False)
        calm.append(1)
        step(ctx, m, root, "shutdown")
        r = step(ctx, m, root, "shutdown")
        ctx.check(r.success and m.state == TS.EDITABLE, "shutting down makes the tree editable again")
        r = step(ctx, m, root, "once")
        ctx.check(r.success, "a tree that was shut down can run again")
    ctx.reach("done")


def empty(ctx, steps):
    """A tree without nodes: commands are answered, nothing runs."""
    m = make(ctx, True)
    with stubs.coop():
        for s in range(steps):
            cmd = ctx.pick("c%d" % s, list(CMDS))
            r = call(m, "control_execution", C(command=CMDS[cmd], tick_frequency_hz=10.0))
            ctx.check(not alive() and m.state in (TS.EDITABLE, TS.IDLE), "a tree without nodes never runs")
            if cmd == "shutdown":
                ctx.check(r.success and m.state == TS.EDITABLE, "a tree without nodes can be shut down")
            if cmd == "unknown":
                ctx.check(not r.success, "unknown commands are refused")
    ctx.reach("done")


def topology(ctx, steps):
    """Several roots: nothing runs, everything is answered, shutting down makes the tree editable."""
    m = make(ctx)
    r = call(m, "add_node", AddNode.Request(parent_node_id=NIL, node=NodeStructure(module=__name__, node_class="CRoot", name="second", node_id=NIL, child_ids=[], inputs=[], outputs=[], max_children=0)))
    ctx.check(r.success, "a second root can be added")
    DECIDE[0] = lambda w: "ok"
    LOG[:] = []
    with stubs.coop():
        for s in range(steps):
            cmd = ctx.pick("c%d" % s, list(CMDS))
            r = call(m, "control_execution", C(command=CMDS[cmd], tick_frequency_hz=10.0))
            ctx.check(not LOG and not alive(), "a tree with several roots never runs")
            ctx.check(m.state == TS.EDITABLE, "a tree with several roots stays editable")
            if cmd in ("once", "periodic", "until", "unknown"):
                ctx.check(not r.success and len(r.error_message) > 0, "a tree with several roots can't be ticked")
            if cmd == "shutdown":
                ctx.check(r.success, "a tree with several roots can be shut down")
    ctx.reach("done")


def anycommand(ctx):
    """Any command number in any state, without nodes failing."""
    m = make(ctx)
    root = m.nodes[U(0)]
    DECIDE[0] = lambda w: "R" if w == "tick" else "ok"
    with stubs.coop():
        pre = ctx.pick("pre", ["none", "once", "periodic", "reset", "error"])
        if pre == "error":
            m.state = TS.ERROR
        else:
            call(m, "control_execution", C(command=CMDS[pre], tick_frequency_hz=10.0))
        st = m.state
        c = ctx.int("cmd", 0, 255)
        ctx.assume(sym_not(sym_and(c >= 0, c <= 7)))
        LOG[:] = []
        r = call(m, "control_execution", C(command=c, tick_frequency_hz=10.0))
        ctx.check(not r.success and len(r.error_message) > 0 and m.state == st and not LOG, "unknown commands are refused")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    f = 2 if t else 1
    hs = []
    bd = "%d commands, 0..2 ticks after each, any result of any node call, at most %d failing" % (n, f)
    for c in RUN:
        for d in RUN + ["setupshutdown"] if c in ("periodic", "until", "once") else [None]:
            hs.append(H("commands/" + c + ("-" + d if d else ""), commands, dict(first=c, second=d, steps=n, fails=f), bd, reach=("done",) + (("busy",) if c == "periodic" and d not in ("stop", "shutdown") else ()), max_paths=400000))
    hs.append(H("recover", recover, dict(steps=3 if t else 2), "%d commands, up to 2 failing calls" % (3 if t else 2), reach=("done",), max_paths=200000))
    hs.append(H("empty", empty, dict(steps=3 if t else 2), "%d commands" % (3 if t else 2), reach=("done",)))
    hs.append(H("topology", topology, dict(steps=3 if t else 2), "%d commands" % (3 if t else 2), reach=("done",)))
    hs.append(H("anycommand", anycommand, {}, "any command number", reach=("done",)))
    return hs
