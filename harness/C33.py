"""What is reported about execution: node diagnostics, ROS diagnostics, log messages, the published state."""
import copy

from harness.edit import *
from harness.edit import _Base
from harness.C17 import every, ALL as EDITS
from harness.C18 import CMDS, TS, C, alive
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py_interfaces.msg import BTLogMessage
from ros_bt_py_interfaces.srv import SetLogLevel
from diagnostic_msgs.msg import DiagnosticStatus
from std_srvs.srv import SetBool

MOD = __name__
ASSUMPTIONS = ["no node raises an exception (what is reported about an operation that raises is left open)"]
W = [None]
OPS = ("setup", "tick", "untick", "reset", "shutdown")
GOOD = {"setup": S.IDLE, "untick": S.IDLE, "reset": S.IDLE, "shutdown": S.SHUTDOWN}


def reported(op):
    def f(self):
        W[0].start(self, op)
        r = getattr(super(DNode, self), op)()
        W[0].end(self, op, r)
        return r
    f.__name__ = op
    return f


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class DNode(FlowControl):
    """Hands operations on to its children; leaves do what W says."""
    setup, tick, untick, reset, shutdown = map(reported, OPS)

    def _each(self, op):
        r = None
        for c in self.children:
            x = getattr(c, op)()
            if x.is_err():
                return x
            r = x.unwrap()
        if not self.children:
            return W[0].act(self, op)
        return Ok(GOOD.get(op) or r)

    def _do_setup(self):
        return self._each("setup")

    def _do_tick(self):
        return self._each("tick")

    def _do_untick(self):
        return self._each("untick")

    def _do_reset(self):
        return self._each("reset")

    def _do_shutdown(self):
        return W[0].act(self, "shutdown") if not self.children else Ok(S.SHUTDOWN)


class Watch:
    def __init__(self, ctx, toggles, plan=None, dm=None):
        self.ctx, self.left, self.dm, self.on, self.msgs, self.exp, self.open, self.n = ctx, toggles, dm, False, [], [], [], 0
        self.choices, self.given, self.log = [], plan, []

    def set(self, on):
        if self.dm is not None:
            r = self.dm.set_collect_node_diagnostics(SetBool.Request(data=on), SetBool.Response())
            self.ctx.check(r.success, "collecting diagnostics can be switched on and off")
            self.on = on

    def stamp(self):
        stubs.world().now_ns += 7
        return str(stubs.Clock().now())

    def about(self, node):
        path, n = [], node
        while n is not None:
            path.insert(0, n.name)
            n = n.parent
        return [node.name, str(node.node_id), type(node).__module__, type(node).__name__, str(path)]

    def start(self, node, op):
        t = self.stamp()
        if self.on:
            self.exp.append(self.about(node) + ["PRE_" + op.upper(), t])
        self.open.append(self.on)

    def end(self, node, op, r):
        self.log.append((node.name, op, r.is_ok(), r.unwrap() if r.is_ok() else None, node.state))
        if self.open.pop() and self.on:
            self.exp.append(self.about(node) + ["POST_" + op.upper(), str(stubs.Clock().now())])

    def act(self, node, op):
        """a leaf does something; meanwhile collecting may be switched on or off"""
        k = self.n
        self.n += 1
        if self.given is None:
            flip = False
            if self.left and self.ctx.bool("flip%d" % k):
                self.left -= 1
                flip = True
            r = self.ctx.enum("r%d" % k, [S.RUNNING, S.SUCCEEDED, S.FAILED]) if op == "tick" else GOOD[op]
            if self.ctx.bool("err%d" % k):
                r = None
            self.choices.append((flip, r))
        else:
            if k >= len(self.given):
                self.ctx.fail("collecting diagnostics doesn't change what nodes do")
            flip, r = self.given[k]
        if flip:
            self.set(not self.on)
        return Err(BehaviorTreeException("no")) if r is None else Ok(r)

    def got(self, d):
        v = {x.key: x.value for x in d.values}
        self.ctx.check(len(v) == len(d.values), "no diagnostic value is given twice")
        self.msgs.append([d.name] + [v.get(k) for k in ("node_id", "module", "node_class", "path", "state", "stamp")])


def dtree(ps, m):
    ch = {i: [j for j, p in enumerate(ps) if p == i] for i in range(len(ps))}
    return TreeStructure(name="tree", nodes=[NodeStructure(module=MOD, node_class="DNode", name="n%d" % i, node_id=str(U(i)), child_ids=[str(U(c)) for c in ch[i]], inputs=[], outputs=[], max_children=-1) for i in ch], tick_frequency_hz=10.0)


def do(m, op):
    if op == "move":
        # n2 from its parent to the other node
        n, root, n1 = m.nodes[U(2)], m.nodes[U(0)], m.nodes[U(1)]
        src, dst = (root, n1) if n.parent is root else (n1, root)
        src.remove_child(n.node_id)
        dst.add_child(n)
    elif op == "rename":
        m.nodes[U(0)].name += "x"
    else:
        getattr(m.nodes[U(0)], op)()


def diagnostics(ctx, parents, ops, toggles, moves=False):
    """Every operation on every node is reported at its start and end while collecting is on, and never otherwise."""
    hold = []
    dm = DebugManager(ros_node=rclpy.node.Node("n"), node_diagnostics_publish_callback=lambda x: hold[0].got(x))
    w = Watch(ctx, toggles, None, dm)
    hold.append(w)
    W[0] = w
    m = manager(debug_manager=dm)
    ctx.check(m.load_tree(LoadTree.Request(tree=dtree(parents, m)), LoadTree.Response()).success, "a valid tree can be loaded")
    w.set(ctx.pick("on", [True, False]))
    if moves:
        todo = ["setup", "tick", ctx.pick("edit", ["move", "rename"])] + [ctx.pick("op%d" % i, OPS) for i in range(ops)]
    else:
        todo = ["setup"] + [ctx.pick("op%d" % i, OPS) for i in range(ops)]
    for op in todo:
        do(m, op)
    ctx.check(len(w.msgs) == len(w.exp), "exactly the starts and ends of operations are reported, while collecting is on")
    for i, (g, e) in enumerate(zip(w.msgs, w.exp)):
        ctx.check(g[:5] == e[:5], "reports name the node, its class and its path")
        ctx.check(g[5] == e[5], "reports say which operation starts or ends")
        ctx.check(g[6] == e[6], "reports have the current time")
        ctx.reach("reported")
    # without debugging
    w2 = Watch(ctx, 0, w.choices)
    W[0] = w2
    m2 = manager()
    m2.load_tree(LoadTree.Request(tree=dtree(parents, m2)), LoadTree.Response())
    for op in todo:
        do(m2, op)
    ctx.check(len(w.log) == len(w2.log) and sym_deep_eq(w.log, w2.log), "collecting diagnostics doesn't change what nodes do")


LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class LogNode(Leaf):
    def _do_setup(self):
        return Ok(S.IDLE)

    def _do_tick(self):
        W[0](self)
        return Ok(S.SUCCEEDED)

    def _do_untick(self):
        return Ok(S.IDLE)

    def _do_reset(self):
        return Ok(S.IDLE)

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


def logs(ctx):
    """A message of a node is published if its level is enabled, with who said it in which tree."""
    got = []
    LoggingManager._min_log_level = BTLogMessage.INFO
    lm = LoggingManager(ros_node=rclpy.node.Node("n"), publish_log_callback=got.append)
    try:
        low = 20
        if ctx.pick("set", [False, True]):
            low = ctx.int("min", 0, 255)
            LoggingManager.set_min_log_level(SetLogLevel.Request(min_log_level=low), SetLogLevel.Response())
        m = manager(logging_manager=lm)
        t = TreeStructure(name="tree", tick_frequency_hz=10.0, nodes=[NodeStructure(module=MOD, node_class="LogNode", name="n0", node_id=str(U(0)), child_ids=[], inputs=[], outputs=[], max_children=0)])
        ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
        name = "tree"
        if ctx.pick("rename", [False, True]):
            name = "other"
            ctx.check(m.change_tree_name(ChangeTreeName.Request(name=name), ChangeTreeName.Response()).success, "the tree can be renamed")
        kind = ctx.pick("kind", list(LEVELS))
        fn = {"debug": "logdebug", "info": "loginfo", "warn": "logwarn", "error": "logerr", "fatal": "logfatal"}[kind]
        internal = ctx.pick("internal", [False, True])
        text = ctx.str("text", 3)

        def say(node):
            del got[:]
            if internal:
                getattr(node, fn)(text, internal=True)
            else:
                getattr(node, fn)(text)
            said.extend(got)
        said = []
        W[0] = say
        stubs.world().now_ns = 12 * 10 ** 9 + 5
        n = m.nodes[U(0)]
        n.setup()
        n.tick()
        shown = sym_and(low <= LEVELS[kind], not internal)
        ctx.check(sym_implies(shown, len(said) == 1), "messages of enabled levels are published once")
        ctx.check(sym_implies(sym_not(shown), len(said) == 0), "messages of disabled levels and internal ones aren't published")
        for x in said:
            ctx.check(x.level == LEVELS[kind] and x.msg == text, "log messages have their level and text")
            ctx.check(x.tree_name == name and str(x.tree_id) == str(U(999)), "log messages name their tree")
            ctx.check(str(x.node_id) == str(U(0)) and x.node_name == "n0", "log messages name their node")
            ctx.check(x.stamp.sec == 12 and x.stamp.nanosec == 5, "log messages have the current time")
            ctx.reach("said")
        if not said:
            ctx.reach("not said")
    finally:
        LoggingManager._min_log_level = BTLogMessage.INFO


def stem(s):
    return s[:-5] if s.endswith(".yaml") else s


def ros(ctx, n, name):
    """/diagnostics: the name of the tree and whether it is ticked or in error."""
    out = []
    timers = []
    m = manager(publish_diagnostic_callback=lambda x: out.append(copy.deepcopy(x)))

    def look(name=None):
        k = len(out)
        m.diagnostic_callback()
        ctx.check(len(out) == k + 1 and len(out[-1].status) == 1, "one diagnostic status is published")
        s = out[-1].status[0]
        st = m.state
        want = DiagnosticStatus.OK if st == TS.TICKING else DiagnosticStatus.ERROR if st == TS.ERROR else DiagnosticStatus.WARN
        ctx.check(s.level == want, "the diagnostic level is OK while ticking, ERROR after an error and WARN otherwise")
        if name is not None:
            ctx.check(s.name == name, "diagnostics have the name of the tree, or of its root if it has none")
        ctx.reach("state " + str(st))
    t = dtree([-1, 0], m)
    t.name = name
    look()
    W[0] = w = Watch(ctx, 0)
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    name = stem(name) or "n0"
    look(name)
    with stubs.coop():
        for i in range(n):
            c = ctx.pick("c%d" % i, ["once", "periodic", "stop", "reset", "shutdown", "rename", "clear", "load"])
            if c == "rename":
                if call(m, "change_tree_name", ChangeTreeName.Request(name="r%d.yaml" % i)).success:
                    name = "r%d" % i
            elif c == "clear":
                if call(m, "clear", ClearTree.Request()).success:
                    name = ""
            elif c == "load":
                t = dtree([-1, 0], m)
                t.name = "l%d" % i
                if call(m, "load_tree", LoadTree.Request(tree=t)).success:
                    name = t.name
            else:
                call(m, "control_execution", C(command=CMDS[c], tick_frequency_hz=10.0))
                if c == "periodic" and alive():
                    alive()[0].co.resume()
            look(name)


def status(ctx, n, first, cmds, edits):
    """After any request the tree state published last is the current one."""
    sts, sta = [], []
    m = manager(publish_tree_state_callback=lambda x: sta.append(copy.deepcopy(x)), publish_tree_structure_callback=lambda x: sts.append(copy.deepcopy(x)))
    W[0] = Watch(ctx, 0)
    t = dtree([-1, 0, 1], m)
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")

    def look(what):
        ctx.check(len(sta[-1].tree_states) == 1 and len(sts[-1].tree_structures) == 1, "exactly the tree is published")
        ctx.check(sta[-1].tree_states[0].state == m.state, "the tree state published last is the current one")
        ctx.check(sts[-1].tree_structures[0].name == m.name, "the structure published last is the current one")
        ctx.check({str(x.node_id): (x.name, [str(c) for c in x.child_ids]) for x in sts[-1].tree_structures[0].nodes} == {str(i): (x.name, [str(c.node_id) for c in x.children]) for i, x in m.nodes.items()}, "the structure published last is the current one")
        ctx.reach("state " + str(m.state))
    look("load")
    with stubs.coop():
        for i in range(n):
            c = ctx.pick("c%d" % i, cmds + edits) if i else first
            if c in CMDS:
                call(m, "control_execution", C(command=CMDS[c], tick_frequency_hz=10.0))
                if alive() and ctx.pick("ticks%d" % i, [True, False]):
                    alive()[0].co.resume()
            else:
                name, req = every(c)
                call(m, name, copy.deepcopy(req))
            if not any(t.co.at is None for t in alive()):
                # a thread that has just been started publishes later
                look(c)


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for ps in ([-1], [-1, 0, 0], [-1, 0, 1]):
        hs.append(H("diagnostics/" + "".join(str(x) for x in ps[1:]), diagnostics, dict(parents=ps, ops=3 if t else 2 if len(ps) > 1 else 3, toggles=2 if t else 1),
                    "a setup and %d further operations on a tree of %d nodes, any results, collecting switched during any operation of a leaf" % (3 if t else 2 if len(ps) > 1 else 3, len(ps)), reach=("reported",)))
    for ps in ([-1, 0, 0], [-1, 0, 1]):
        hs.append(H("diagnostics/moved-" + "".join(str(x) for x in ps[1:]), diagnostics, dict(parents=ps, ops=2 if t else 1, toggles=0, moves=True),
                    "a setup and a tick of a tree of 3 nodes, of which one is then moved or renamed, and %d further operations, any results" % (2 if t else 1), reach=("reported",)))
    hs.append(H("logs", logs, {}, "every kind of message, any minimum level and text of up to 3 characters", reach=("said", "not said")))
    for name in ("", "tree", "my.tree.yaml"):
        hs.append(H("ros/" + (name or "unnamed"), ros, dict(n=4 if t else 3, name=name), "%d requests, any results" % (4 if t else 3), reach=("state TICKING", "state IDLE", "state EDITABLE", "state ERROR", "state WAITING_FOR_TICK")))
    cm = ["once", "periodic", "until", "stop", "reset", "shutdown", "setupshutdown"]
    for c in cm:
        hs.append(H("status/" + c, status, dict(n=3 if t else 2, first=c, cmds=cm, edits=[e for e in EDITS]), "%d requests" % (3 if t else 2), reach=()))
    return hs
