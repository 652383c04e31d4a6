"""Service calls from several threads at once: edits are atomic and exclude execution."""
import copy
import os
import sys

import ros_bt_py.tree_exec_manager
import ros_bt_py.tree_edit_manager
from harness.edit import *
from harness.edit import _Base
from harness.C17 import every, ALL as EDITS

MOD = __name__
ASSUMPTIONS = ["threads switch at calls of methods of the tree managers, before locks are taken, when messages are published, when nodes are created and at calls of nodes; code between these points runs at once",
               "at most the stated number of switches are made where the running thread could have continued"]
C = ControlTreeExecution.Request
TS = TreeState
FILES = {os.path.realpath(m.__file__) for m in (ros_bt_py.tree_exec_manager, ros_bt_py.tree_edit_manager)}
SKIP = {"service_handler"}
CALLS = []


def pause(at):
    if stubs.world().preempt:
        stubs.Coop.pause(at)


def trace(frame, event, arg):
    co = frame.f_code
    if event == "call" and not co.co_name.startswith("<") and co.co_filename in FILES and co.co_name not in SKIP:
        pause(co.co_name)
    return None


def conf0(n):
    return NodeConfig(inputs={"o": IntType(allow_dynamic=False, is_static=True, min_value=0, max_value=5)}, outputs={"x": IntType()}, max_children=n)


@define_bt_node(conf0(0))
class EWatch(_Base, Leaf):
    """Records who operates on it; a thread may be interrupted while it does."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        pause("created")

    def busy(self, op, r):
        CALLS.append(("start", self.name, op, stubs.Coop.current))
        pause(op)
        CALLS.append(("end", self.name, op, stubs.Coop.current))
        return r

    def _do_setup(self):
        return self.busy("setup", Ok(S.IDLE))

    def _do_tick(self):
        return self.busy("tick", Ok(RESULT[0]))

    def _do_untick(self):
        return self.busy("untick", Ok(S.IDLE))

    def _do_reset(self):
        return self.busy("reset", Ok(S.IDLE))

    def _do_shutdown(self):
        return self.busy("shutdown", Ok(S.SHUTDOWN))


RESULT = [S.SUCCEEDED]


class Run:
    """Several threads; `sw` says at every point whether the running thread is interrupted there, `next` who
    continues when it can't go on."""

    def __init__(self, ctx, switches):
        self.ctx, self.left, self.n, self.k = ctx, switches, 0, 0

    def go(self, *fns):
        self.out = [None] * len(fns)
        for c in stubs.world().coops:
            if not c.started:
                c.fn = self.traced(c.fn)
        self.mine = [stubs.Coop(self.traced(lambda i=i, f=f: self.put(i, f()))) for i, f in enumerate(fns)]
        stubs.WORLD_JOIN[0] = self.join
        stubs.world().preempt = True
        try:
            return self.loop()
        finally:
            stubs.world().preempt = False
            stubs.WORLD_JOIN[0] = None

    def put(self, i, r):
        self.out[i] = r

    def loop(self):
        now = self.mine[0]
        for _ in range(20000):
            if all(c.done for c in self.mine):
                return True
            # threads of the tree that have just been started are threads like all others
            live = [c for c in stubs.world().coops if not c.done]
            ready = [c for c in live if not self.stuck(c)]
            if not ready:
                ready = [c for c in live if c.at == "join"]
                if not ready:
                    return False
            if now not in ready or now.at == "sleep":
                o = [c for c in ready if c is not now] or ready
                self.k += 1
                now = o[self.ctx.pick("next%d" % self.k, range(len(o)))] if len(o) > 1 else o[0]
            elif self.left and now.started and len(ready) > 1:
                o = [c for c in ready if c is not now]
                self.n += 1
                if self.ctx.bool("sw%d" % self.n):
                    self.left -= 1
                    self.k += 1
                    now = o[self.ctx.pick("next%d" % self.k, range(len(o)))] if len(o) > 1 else o[0]
            if not now.started and now not in self.mine:
                now.fn = self.traced(now.fn)
            now.resume()
        return False

    def stuck(self, c):
        """waits for a lock somebody holds, or for a thread"""
        if c.at == "join":
            return not c.waiting.finished
        return c.at == "blocked" and c.waiting is not None and c.waiting.locked()

    def join(self, thread, timeout):
        c = stubs.Coop.current
        if c is thread.co:
            raise RuntimeError("cannot join current thread")
        if not thread.finished and c is not None:
            c.waiting = thread
            stubs.Coop.pause("join")
            c.waiting = None

    def traced(self, f):
        def body():
            sys.settrace(trace)
            try:
                f()
            finally:
                sys.settrace(None)
        return body


def start(ctx, kinds=("F", "D", "L"), **kw):
    t = structure(kinds, [-1, 0, 1], [(0, "x", 1, "p")])
    m = manager(**kw)
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    return m


def request(op, i):
    """The i-th call: nodes it adds are different ones"""
    name, req = every(op)
    req = copy.deepcopy(req)
    if op.startswith("add_node"):
        req.node.node_id = str(U(50 + i))
        req.node.name = "new%d" % i
    if op == "set_options":
        req.new_name = "other%d" % i
    if op == "morph_node":
        req.new_node.name = "m%d" % i
    if op == "change_tree_name":
        req.name = "renamed%d" % i
    return name, req


def result(m, rs):
    """Everything observable; nodes are identified by their names, as new nodes get new ids."""
    s = snap(m)
    nm = {i: n["name"] for i, n in s["nodes"].items()}
    nodes = {n["name"]: (n["class"], nm.get(n["parent"], n["parent"]), tuple(nm.get(c, c) for c in n["children"]), n["state"], n["in"], n["out"]) for n in s["nodes"].values()}
    wires = sorted((nm.get(a, a), b, nm.get(c, c), d) for a, b, c, d in s["wirings"])
    return (nodes, len(s["nodes"]), wires, s["name"], tuple(bool(r.success) for r in rs), m.state)


DONE = {}  # results of calls one after the other


def pair(ctx, a, bs, switches):
    """Two edits at once end like one after the other."""
    b = ctx.pick("other", bs)
    exp = DONE.get((a, b))
    if exp is None:
        exp = DONE[a, b] = []
        for order in ((0, 1), (1, 0)):
            m = start(ctx)
            rs = [None, None]
            for i in order:
                rs[i] = call(m, *request((a, b)[i], i))
            exp.append(result(m, rs))
    last = []
    m = start(ctx, publish_tree_structure_callback=lambda x: (pause("publish"), last.append(copy.deepcopy(x))))
    with stubs.coop():
        r = Run(ctx, switches)
        fin = r.go(lambda: call(m, *request(a, 0)), lambda: call(m, *request(b, 1)))
        ctx.check(fin, "concurrent edits are all answered")
        for c in r.mine:
            ctx.check(c.exc is None, "concurrent edits raise nothing")
    got = result(m, r.out)
    ctx.check(any(same(got, e) for e in exp), "concurrent edits have the result of one after the other")
    now = m.structure_to_msg()
    pub = last[-1].tree_structures[-1]
    ctx.check(sorted((str(n.node_id), n.name, tuple(str(c) for c in n.child_ids)) for n in pub.nodes) == sorted((str(n.node_id), n.name, tuple(str(c) for c in n.child_ids)) for n in now.nodes)
              and sorted(map(wkey, pub.data_wirings)) == sorted(map(wkey, now.data_wirings)) and pub.name == now.name, "the structure published last is the current one")
    invariant(ctx, m, "concurrent edits")
    ctx.reach("done")


CMDS = {"once": C.TICK_ONCE, "periodic": C.TICK_PERIODICALLY, "result": C.TICK_UNTIL_RESULT, "stop": C.STOP, "reset": C.RESET, "shutdown": C.SHUTDOWN, "setupshutdown": C.SETUP_AND_SHUTDOWN, "nothing": C.DO_NOTHING}
LONG = ("periodic", "result")


def command(m, c):
    return call(m, "control_execution", C(command=CMDS[c], tick_frequency_hz=10.0))


def watched(ctx, prefix, **kw):
    """a tree whose leaf is watched, after some commands"""
    del CALLS[:]
    del stubs.world().threads[:]
    del stubs.world().coops[:]
    m = manager(**kw)
    t = structure(("F", "D", "L"), [-1, 0, 1])
    t.nodes[2] = NodeStructure(module=MOD, node_class="EWatch", name="n2", node_id=str(U(2)), child_ids=[], inputs=[], outputs=[], max_children=-1)
    for i in (0, 1, 2):
        t.nodes[i].node_class = ("EAll", "EOne", "EWatch")[i]
        t.nodes[i].module = MOD
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    for c in prefix:
        r = command(m, c)
        ctx.check(r.success, "commands before")
    return m


class _Plain:
    """inputs aren't needed for a tick"""

    def _do_tick(self):
        r = Ok(S.SUCCEEDED)
        for c in self.children:
            r = c.tick()
        return r

    def _do_shutdown(self):
        for c in self.children:
            c.shutdown()
        return Ok(S.SHUTDOWN)


@define_bt_node(conf0(None))
class EAll(_Plain, _Base, FlowControl):
    pass


@define_bt_node(conf0(1))
class EOne(_Plain, _Base, Decorator):
    pass


def overlaps():
    """operations on a node by two threads at once"""
    busy = {}
    for what, name, op, who in CALLS:
        if what == "start":
            if busy.get(name) and busy[name][-1] is not who:
                return True
            busy.setdefault(name, []).append(who)
        else:
            busy[name].pop()
    return False


def commands(ctx, prefix, a, bs, switches, res):
    """Commands from two threads: every node is operated on by one thread at a time, the tree ends in a sound state."""
    b = ctx.pick("other", bs)
    RESULT[0] = ctx.enum("res", res) if len(res) > 1 else res[0]
    with stubs.coop():
        m = watched(ctx, prefix)
        r = Run(ctx, switches)
        fin = r.go(lambda: command(m, a), lambda: command(m, b))
        ctx.check(fin, "concurrent commands are all answered")
        for c in r.mine:
            ctx.check(c.exc is None, "concurrent commands raise nothing")
        ctx.check(not overlaps(), "a node is operated on by one thread at a time")
        sound(ctx, m)
        ctx.reach("done")


def sound(ctx, m):
    for t in stubs.world().threads:
        for _ in range(200):
            # to the end of the tick
            if not t.finished and t.co.at != "sleep":
                t.co.resume()
    run = [t for t in stubs.world().threads if t.started and not t.finished]
    ctx.check(len(run) <= 1, "at most one thread ticks the tree")
    if not run:
        ctx.check(m.state not in (TS.TICKING, TS.STOP_REQUESTED), "a tree that isn't ticked doesn't claim to be")
        if m.state in (TS.IDLE, TS.EDITABLE):
            ctx.check(all(n.state != S.RUNNING for n in m.nodes.values()), "no node is RUNNING in an idle or editable tree")
    else:
        ctx.check(m.state in (TS.TICKING, TS.STOP_REQUESTED), "a tree that is ticked says so")
    ctx.check(command(m, "shutdown").success or command(m, "shutdown").success, "the tree can be shut down afterwards")
    ctx.check(m.state == TS.EDITABLE, "the tree can be shut down afterwards")
    ctx.check(all(n.state in (S.SHUTDOWN, S.UNINITIALIZED) for n in m.nodes.values()), "the tree can be shut down afterwards")
    ctx.check(not [t for t in stubs.world().threads if t.started and not t.finished], "nothing ticks the tree after shutting it down")


def mixed(ctx, prefix, first, a, bs, switches):
    """An edit and a command at once: one after the other."""
    b = ctx.pick("other", bs)
    RESULT[0] = S.SUCCEEDED
    exp = DONE.get((prefix, a, b))
    for order in ((0, 1), (1, 0)) if exp is None else ():
        if exp is None:
            exp = DONE[prefix, a, b] = []
        with stubs.coop():
            m = watched(ctx, prefix)
            rs = [None, None]
            for i in order:
                rs[i] = call(m, *edit(a)) if i == 0 else command(m, b)
            exp.append(result(m, rs))
    with stubs.coop():
        m = watched(ctx, prefix)
        r = Run(ctx, switches)
        fs = [lambda: call(m, *edit(a)), lambda: command(m, b)]
        fin = r.go(*(fs if first == "edit" else fs[::-1]))
        out = r.out if first == "edit" else r.out[::-1]
        ctx.check(fin, "an edit and a command are both answered")
        for c in r.mine:
            ctx.check(c.exc is None, "an edit and a command raise nothing")
        got = result(m, out)
        ctx.check(not overlaps(), "a node is operated on by one thread at a time")
        if b in LONG:
            got, exp = norun(got), [norun(e) for e in exp]
        ctx.check(any(same(got, e) for e in exp), "an edit and a command at once have the result of one after the other")
        invariant(ctx, m, "an edit during a command")
        sound(ctx, m)
        ctx.reach("done")


def norun(e):
    """without what depends on the number of ticks"""
    nodes, n, wires, name, rs, st = e
    return ({k: v[:3] + ({i: x if x[1] else x[:2] for i, x in v[4].items()}, v[5]) for k, v in nodes.items()}, n, wires, name, rs, None)


def edit(op):
    name, req = request(op, 0)
    if op == "morph_node":
        req.new_node.module, req.new_node.node_class = MOD, "EAll"
    if op.startswith("add_node"):
        req.node.module, req.node.node_class = MOD, "EWatch"
    return name, req


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for a in EDITS:
        hs.append(H("edits/" + a.replace(" ", "-"), pair, dict(a=a, bs=EDITS, switches=2 if t else 1), "this edit and any other one in another thread, %d switch(es) anywhere" % (2 if t else 1), reach=("done",)))
    cs = list(CMDS)
    for p in ((), ("once",), ("once", "shutdown"), ("periodic",)):
        nm = "+".join(p) or "new"
        for a in cs:
            hs.append(H("commands/%s/%s" % (nm, a), commands, dict(prefix=p, a=a, bs=cs, switches=2 if t else 1, res=(S.RUNNING, S.SUCCEEDED)), "this command and any other one in another thread, %d switch(es) anywhere" % (2 if t else 1), reach=("done",)))
    for p in ((), ("once", "shutdown")):
        nm = "+".join(p) or "new"
        for a in EDITS:
            for f in ("edit", "command"):
                hs.append(H("mixed/%s/%s/%s" % (nm, a.replace(" ", "-"), f), mixed, dict(prefix=p, first=f, a=a, bs=cs, switches=2 if t else 1), "this edit and any command in two threads, %d switch(es) anywhere" % (2 if t else 1), reach=("done",)))
    return hs
