"""The tick loop: periods, stopping, failures, what is reported."""
import copy
from harness.edit import *
from harness.C18 import CMDS, TS, C, alive

DO = [None]


@define_bt_node(NodeConfig(inputs={}, outputs={"x": IntType()}, max_children=None))
class LNode(FlowControl):
    """Ticks its children in order; what it does itself is decided by DO."""

    def _say(self, what, default):
        r = DO[0](self, what)
        if r == "raise":
            raise ValueError(what + " raised")
        if r == "err":
            return Err(NodeConfigError("boom " + what))
        return Ok(default if r is None else r)

    def _do_setup(self):
        for c in self.children:
            r = c.setup()
            if r.is_err():
                return r
        return self._say("setup", S.IDLE)

    def _do_tick(self):
        res = None
        for c in self.children:
            r = c.tick()
            if r.is_err():
                return r
            res = r.unwrap()
        return self._say("tick", res or S.RUNNING)

    def _do_untick(self):
        for c in self.children:
            r = c.untick()
            if r.is_err():
                return r
        return self._say("untick", S.IDLE)

    def _do_reset(self):
        for c in self.children:
            c.reset()
        return self._say("reset", S.IDLE)

    def _do_shutdown(self):
        return self._say("shutdown", S.SHUTDOWN)


def ns(i, ch=()):
    return NodeStructure(module=__name__, node_class="LNode", name="n%d" % i, node_id=str(U(i)), child_ids=[str(U(c)) for c in ch], inputs=[], outputs=[], max_children=-1)


def make(ctx, parents, freq=10.0, **kw):
    m = manager(**kw)
    ch = {i: [j for j, p in enumerate(parents) if p == i] for i in range(len(parents))}
    t = TreeStructure(name="tree", nodes=[ns(i, ch[i]) for i in ch], tick_frequency_hz=freq)
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    return m


def control(m, cmd, freq=0.0):
    return call(m, "control_execution", C(command=CMDS[cmd], tick_frequency_hz=freq))


def loop(ctx, mode, periods):
    """Ticking stops after the chosen period or with the first result; a tick that is running is finished first."""
    m = make(ctx, [-1, 0])
    log = []
    mid = ctx.pick("stop during a tick", [False, True])
    stop = ctx.int("stop", 0, periods)
    asked = []

    def do(node, what):
        log.append((node.name, what, bool(asked)))
        if what == "tick" and node.name == "n1":
            n = len([1 for x in log if x[:2] == ("n1", "tick")])
            if mid and n == stop:
                stubs.Coop.pause("in tick")
            return ctx.enum("t%d" % n, [S.RUNNING, S.SUCCEEDED, S.FAILED])
        return None
    DO[0] = do
    with stubs.coop():
        ctx.check(control(m, mode).success, "ticking starts")
        k = 0
        while k < stop:
            if alive():
                alive()[0].co.resume()
            k += 1
        ticks = len([1 for x in log if x[:2] == ("n0", "tick")])
        unfinished = bool(alive()) and alive()[0].co.at == "in tick"
        if mode == "until" and not alive():
            ctx.check(m.state == TS.IDLE, "TICK_UNTIL_RESULT leaves the tree IDLE")
            ctx.check(m.nodes[U(0)].state is S.IDLE and m.nodes[U(1)].state is S.IDLE, "a stopped tree has no running nodes")
            ctx.reach("result")
            return
        asked.append(1)
        r = control(m, "stop")
        ctx.check(r.success and m.state == TS.IDLE and r.tree_state == TS.IDLE, "STOP stops")
        ctx.check(not alive(), "nothing ticks after STOP was answered")
        after = len([1 for x in log if x[:2] == ("n0", "tick")])
        ctx.check(after == ticks + (1 if unfinished else 0), "no tick starts after STOP")
        ctx.check(not any(w == "tick" and a and n == "n1" for n, w, a in log), "no node is ticked by a later tick after STOP")
        ctx.check(all(m.nodes[U(i)].state in (S.IDLE,) for i in (0, 1)), "a stopped tree has no running nodes")
        ctx.reach("stopped in a tick" if unfinished else "stopped")


def rates(ctx, mode):
    """The loop sleeps once per period with the requested rate."""
    f0 = ctx.pick("loaded", [10.0, 2.5, 0.0])
    m = make(ctx, [-1], f0)
    want = f0 or 10.0
    f = ctx.real("freq") if ctx.pick("kind", [0, 1]) else ctx.pick("f", [0.0, -0.0, float("nan"), float("inf"), float("-inf"), 1e-9])
    DO[0] = lambda n, w: None
    naps = []

    def hook(rate):
        naps.append(rate.freq)
        if len(naps) == 2:
            m.state = TS.STOP_REQUESTED
    stubs.world().rate_hook = hook
    try:
        r = control(m, mode, f)
    except Exception:
        ctx.fail("no frequency raises")
    if not r.success:
        ctx.check(m.state != TS.TICKING and not alive(), "a refused command does not tick")
        ctx.check(len(r.error_message) > 0, "a refused command says why")
        ctx.check(sym_not(sym_and(f >= 0, f < 1e9)), "any positive frequency is fine")
        ctx.reach("refused")
        return
    for t in alive():
        t.run_now()
    ctx.check(len(naps) == 2 and m.state == TS.IDLE, "the loop sleeps once per period")
    ctx.check(naps[0] == naps[1], "all periods are of the same length")
    if f == 0:
        ctx.check(naps[0] == want, "without a requested frequency that of the tree is used")
        ctx.reach("default")
    elif sym_and(f > 0, f < float("inf")):
        ctx.check(sym_and(naps[0] == f, m.tick_frequency_hz == f), "the requested frequency is used")
        ctx.reach("requested")
    else:
        ctx.check(naps[0] > 0, "the tree ticks with a valid frequency")
        ctx.reach("invalid")


def loaded_rate(ctx):
    """Loading a tree with any frequency answers, and a loaded tree has a valid frequency."""
    f = ctx.real("freq") if ctx.pick("kind", [0, 1]) else ctx.pick("f", [0.0, -0.0, float("nan"), float("inf"), float("-inf")])
    m = manager()
    r = m.load_tree(LoadTree.Request(tree=TreeStructure(name="tree", nodes=[ns(0)], tick_frequency_hz=f)), LoadTree.Response())
    if r.success:
        ctx.check(m.tick_frequency_hz > 0, "a loaded tree has a valid frequency")
        ctx.check(m.rate.freq == m.tick_frequency_hz, "the tree ticks with its frequency")
        ctx.reach("loaded")
    else:
        ctx.check(sym_not(sym_and(f >= 0, f < 1e9)), "any positive frequency is fine")


def faults(ctx, mode, periods, parents):
    """One call of one node fails or raises: the tree ends in ERROR, is not ticked any more and can be shut down."""
    m = make(ctx, parents)
    who = ctx.pick("who", ["n%d" % i for i in range(len(parents))])
    how = ctx.pick("how", ["err", "raise"])
    what = ctx.pick("what", ["setup", "tick", "untick"])
    if mode == "once" and what == "untick":
        how = "err"      # outside of the tick thread nodes have to return errors
    when = ctx.int("when", 1, periods) if what == "tick" else 1
    count, hit = {}, []

    def do(node, w):
        count[node.name, w] = n = count.get((node.name, w), 0) + 1
        if node.name == who and w == what and not hit and n == when:
            hit.append(1)
            return how
        return S.RUNNING if w == "tick" else None
    DO[0] = do
    with stubs.coop():
        last = None
        if mode == "once":
            for _ in range(periods):
                last = control(m, "once")
                if not last.success:
                    break
        else:
            control(m, mode)
            for _ in range(periods):
                if alive():
                    alive()[0].co.resume()
        if not hit or what == "untick":
            r = control(m, "stop")
            ctx.check(r.success == (not hit), "STOP fails exactly if stopping a node failed")
            last = r
        if hit:
            ctx.check(m.state == TS.ERROR, "a failing node leaves the tree in ERROR")
            ctx.check(not alive(), "a tree in ERROR is not ticked any more")
            if last is not None:
                ctx.check(not last.success and len(last.error_message) > 0, "the failure is reported")
            n = dict(count)
            r = control(m, "once")
            ctx.check(not r.success and count == n, "a tree in ERROR is not ticked any more")
            r = control(m, "shutdown")
            ctx.check(r.success and m.state == TS.EDITABLE, "a tree in ERROR can be shut down")
            r = control(m, "once")
            ctx.check(r.success and m.state == TS.WAITING_FOR_TICK, "and runs again after that")
            ctx.reach(what)
    ctx.reach("done")


def invalid(ctx):
    """Wirings from unknown nodes are reported when ticking starts."""
    m = make(ctx, [-1, 0])
    DO[0] = lambda n, w: None
    m.wirings = [ctx.pick("w", [wire(77, "x", 1, "p"), wire(77, "x", 0, "x")])]
    with stubs.coop():
        r = control(m, "once")
        ctx.check(not r.success and len(r.error_message) > 0, "wirings that lead nowhere are reported")
        ctx.check(m.state == TS.ERROR, "wirings that lead nowhere leave the tree in ERROR")
        ctx.check(control(m, "shutdown").success and m.state == TS.EDITABLE, "a tree in ERROR can be shut down")
    ctx.reach("done")


def hang(ctx, n):
    """A node that takes long: STOP waits for it while ROS runs and gives up after ROS ended."""
    m = make(ctx, [-1])
    naps = ctx.int("naps", 0, n)
    ends = ctx.int("ends", 0, n)
    state = {"n": 0}

    def do(node, w):
        if w == "tick":
            k = 0
            while k < naps:
                state["n"] += 1
                if state["n"] >= ends:
                    stubs.world().ok = False
                stubs.Coop.pause("in tick")
                k += 1
        return None
    DO[0] = do
    with stubs.coop():
        control(m, "periodic")
        alive()[0].co.resume()
        cmd = ctx.pick("cmd", ["stop", "shutdown"])
        r = control(m, cmd)
        if alive():
            ctx.check(not r.success and len(r.error_message) > 0, "STOP fails if the tree does not stop")
            ctx.check(m.state not in (TS.EDITABLE, TS.IDLE, TS.WAITING_FOR_TICK), "a tree that still ticks is not reported as stopped")
            ctx.reach("gives up")
        else:
            ctx.check(r.success and m.state == (TS.IDLE if cmd == "stop" else TS.EDITABLE), "STOP waits for the running tick")
            ctx.reach("waits")


def reports(ctx, periods):
    """What is published after a tick is what the tree is like."""
    states, structs = [], []
    m = make(ctx, [-1, 0, 0], publish_tree_state_callback=lambda x: states.append(copy.deepcopy(x)), publish_tree_structure_callback=lambda x: structs.append(copy.deepcopy(x)))
    n = [0]

    def do(node, w):
        if w == "tick" and node.name != "n0":
            n[0] += 1
            return ctx.enum("t%d" % n[0], [S.RUNNING, S.SUCCEEDED, S.FAILED])
        return None
    DO[0] = do

    def check(what):
        last = states[-1]
        ctx.check(len(last.tree_states) == 1, what + ": exactly this tree is published")
        ts = last.tree_states[0]
        ctx.check(ts.state == m.state, what + ": the published state is that of the tree")
        got = {str(x.node_id): x.state for x in ts.node_states}
        ctx.check(set(got) == {str(i) for i in m.nodes}, what + ": the state of every node is published")
        for i, nd in m.nodes.items():
            ctx.check(sym_deep_eq(got[str(i)], nd.state), what + ": published node states are those of the nodes")
    with stubs.coop():
        control(m, "periodic")
        for _ in range(periods):
            alive()[0].co.resume()
            check("after a tick")
        end = ctx.pick("end", ["stop", "shutdown"])
        ctx.check(control(m, end).success, "STOP stops")
        check("after " + end)
        ctx.check(control(m, "shutdown").success, "SHUTDOWN shuts down")
        check("after shutdown")
        before = len(structs)
        ctx.check(call(m, "remove_node", RemoveNode.Request(node_id=str(U(2)), remove_children=False)).success, "edit")
        ctx.check(len(structs) > before, "edits are published")
        ctx.check({str(x.node_id) for x in structs[-1].tree_structures[-1].nodes} == {str(U(0)), str(U(1))}, "the published structure is that of the edited tree")
        ctx.check(len(structs[-1].tree_structures) == 1, "exactly this tree is published")
        check("after an edit")
    ctx.reach("done")


def frequency(ctx, n):
    """The published frequency: that of the tree if it keeps up, less otherwise."""
    pub = []
    m = make(ctx, [-1], 10.0, publish_tick_frequency_callback=lambda x: pub.append(x.data))
    slow = ctx.pick("slow", [False, True])
    d = ctx.int("d", 1, 10 ** 10)
    ctx.assume(d > 2 * 10 ** 8 if slow else d < 9 * 10 ** 7)

    def do(node, w):
        if w == "tick":
            stubs.world().now_ns = stubs.world().now_ns + d
        return None
    DO[0] = do
    with stubs.coop():
        control(m, "periodic")
        for _ in range(n):
            alive()[0].co.resume()
        ctx.check(len(pub) == n, "the frequency is published every period")
        if slow:
            ctx.check(sym_and(pub[-1] > 0, pub[-1] < 6), "a tree that doesn't keep up is reported with a lower frequency")
            ctx.reach("slow")
        else:
            ctx.check(sym_and(pub[-1] > 9.99, pub[-1] < 10.01), "a tree that keeps up is reported with its frequency")
            ctx.reach("fast")


def harnesses(tier):
    t = tier == "thorough"
    p = 8 if t else 5
    hs = []
    for mode in ("periodic", "until"):
        hs.append(H("loop/" + mode, loop, dict(mode=mode, periods=p), "STOP after any of %d periods or during any tick, any results" % p, reach=("stopped", "stopped in a tick") + (("result",) if mode == "until" else ())))
        hs.append(H("rates/" + mode, rates, dict(mode=mode), "any real frequency, NaN, infinities", reach=("default", "requested"), real_floats=True))
    for mode in ("once", "periodic", "until"):
        for ps in ([[-1, 0, 0], [-1, 0, 1]] if not t else [[-1, 0, 0], [-1, 0, 1], [-1, 0, 1, 1]]):
            hs.append(H("faults/%s-%s" % (mode, "".join(str(x) for x in ps[1:])), faults, dict(mode=mode, periods=p, parents=ps), "any node of %d, any call in %d periods, failing or raising" % (len(ps), p), reach=("setup", "tick", "untick")))
    hs.append(H("loaded rate", loaded_rate, {}, "any real frequency, NaN, infinities", reach=("loaded",), real_floats=True))
    hs.append(H("invalid", invalid, {}, "2 wirings from unknown nodes", reach=("done",)))
    hs.append(H("hang", hang, dict(n=12 if t else 8), "a tick that takes up to %d waits, ROS ends at any time" % (12 if t else 8), reach=("waits", "gives up")))
    hs.append(H("reports", reports, dict(periods=3 if t else 2), "%d periods, any results of 2 children" % (3 if t else 2), reach=("done",)))
    hs.append(H("frequency", frequency, dict(n=11), "11 periods of the same length", reach=("slow", "fast"), real_floats=True))
    return hs
