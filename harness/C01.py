"""Life cycle protocol of a single node."""
from harness.common import *
from ros_bt_py.data_types import IntType

STATES = [S.UNINITIALIZED, S.IDLE, S.RUNNING, S.SUCCEEDED, S.FAILED, S.BROKEN, S.PAUSED, S.ASSIGNED, S.UNASSIGNED, S.SHUTDOWN]
ALLOWED = {"setup": (S.IDLE,), "tick": (S.RUNNING, S.SUCCEEDED, S.FAILED, S.ASSIGNED, S.UNASSIGNED),
           "untick": (S.IDLE, S.PAUSED), "reset": (S.IDLE,), "shutdown": (S.SHUTDOWN,)}


@define_bt_node(NodeConfig(
    inputs={"dyn": IntType(allow_static=False), "st": IntType(allow_dynamic=False)},
    outputs={"o": IntType(), "p": IntType()}, max_children=0))
class Script(Leaf):
    def plan(self, ctx):
        self.ctx, self.calls, self.k = ctx, [], 0
        self.seen = None
        self.write = None
        return self

    def _hook(self, op):
        self.k += 1
        r = self.ctx.enum("%s%d" % (op, self.k), STATES + [ERR])
        self.calls.append(op)
        self.last = r
        if op == "tick":
            self.seen = (self.node_config.outputs["o"].is_updated(), self.node_config.outputs["p"].is_updated(),
                         self.node_config.inputs["dyn"].is_updated(), self.node_config.inputs["st"].is_updated())
            self.write = self.ctx.bool("write%d" % self.k)
            if self.write:
                self.value = self.ctx.int("out%d" % self.k, 0, 5)
                self.outputs.set_value("o", self.value)
        if r == ERR:
            return Err(BehaviorTreeException("script"))
        return Ok(r)

    def _do_setup(self):
        return self._hook("setup")

    def _do_tick(self):
        return self._hook("tick")

    def _do_untick(self):
        return self._hook("untick")

    def _do_reset(self):
        return self._hook("reset")

    def _do_shutdown(self):
        return self._hook("shutdown")


def life(ctx, ops, free):
    node = Script(name="n").plan(ctx)
    ins, outs = node.node_config.inputs, node.node_config.outputs
    ctx.check(node.state == S.UNINITIALIZED, "a new node is UNINITIALIZED")
    st0 = ctx.int("st", -5, 5)
    ctx.check(ins["st"].set_value(st0).is_ok(), "a static input can be set before setup")
    # reference model
    state, has_dyn, dyn_up, out, out_up = S.UNINITIALIZED, False, False, None, False
    for k in range(len(ops) + free):
        op = ops[k] if k < len(ops) else ctx.pick("op%d" % k, ["setup", "tick", "untick", "reset", "shutdown", "input"])
        if op == "input":
            v = ctx.int("in%d" % k, 0, 9)
            ctx.check(ins["dyn"].set_value(v).is_ok(), "a dynamic input accepts values")
            has_dyn = True
            continue
        n = len(node.calls)
        before = node.state
        res = val(getattr(node, op)())
        called = node.calls[n:]
        dead = state in (S.UNINITIALIZED, S.SHUTDOWN, S.BROKEN)
        if op == "setup":
            refused = state not in (S.UNINITIALIZED, S.SHUTDOWN)
        elif op == "shutdown":
            refused = False
        else:
            refused = dead
        if refused:
            ctx.check(res == ERR, op + " is refused in this state")
            ctx.check(called == [], "a refused call does not reach the node's implementation")
            ctx.check(node.state == before, "a refused call leaves the state unchanged")
            ctx.reach("refused-" + op)
            continue
        if op == "shutdown" and state == S.SHUTDOWN:
            ctx.check(res == S.SHUTDOWN, "shutdown of a node that is shut down succeeds")
            ctx.check(called == [], "a node is shut down only once")
            continue
        if op == "tick" and not has_dyn:
            ctx.check(res == ERR, "a tick with an unset input is an error")
            ctx.check(node.state == S.BROKEN, "a tick with an unset input leaves the node BROKEN")
            ctx.check(called == [], "a node is not executed while an input is unset")
            state = S.BROKEN
            ctx.reach("unset")
            continue
        if op == "shutdown" and state == S.UNINITIALIZED and called == []:
            return     # whether an uninitialized node is asked to shut down is left open
        ctx.check(called == [op], op + " runs the node's implementation once")
        hook = node.last
        if hook == ERR:
            ctx.check(res == ERR, "an error of " + op + " is reported")
            ctx.check(node.state == S.BROKEN, "an error of " + op + " leaves the node BROKEN")
            state = S.BROKEN
            ctx.reach("err-" + op)
            if op == "shutdown":
                continue
        elif sym_or(*[hook == a for a in ALLOWED[op]]):
            ctx.check(res == hook, op + " returns the resulting state")
            ctx.check(node.state == hook, "the node's state is the resulting state of " + op)
            state = node.state
            ctx.reach("ok-" + op)
        else:
            ctx.check(res == ERR, "a state that is not a valid result of %s is reported as an error" % op)
            ctx.reach("invalid-" + op)
            return
        flags(ctx, node, op, hook)
        if op == "setup":
            has_dyn, out = False, None
            ctx.check(val(ins["st"].get_value()) == st0, "setup keeps static inputs")
            ctx.check(not ins["dyn"].has_value(), "setup clears dynamic inputs")
            ctx.check(not outs["o"].has_value(), "setup clears the outputs")
        elif op == "reset":
            out = None
            ctx.check(not outs["o"].has_value(), "reset clears the outputs")
            ctx.check(ins["dyn"].has_value() == has_dyn, "reset keeps the inputs")
        elif op == "tick" and hook != ERR:
            if node.write:
                out = node.value
            ctx.check((val(outs["o"].get_value()) == ERR) if out is None else (val(outs["o"].get_value()) == out), "an output keeps its value until it is written")
        elif op == "untick":
            ctx.check((val(outs["o"].get_value()) == ERR) if out is None else (val(outs["o"].get_value()) == out), "untick keeps output values")


def flags(ctx, node, op, hook):
    ins, outs = node.node_config.inputs, node.node_config.outputs
    if hook == ERR:
        return
    if op in ("setup", "reset"):
        for c in ins.values():
            ctx.check(c.is_updated(), op + " marks every input as updated")
        for c in outs.values():
            ctx.check(sym_not(c.is_updated()), op + " clears the updated marks of the outputs")
    elif op == "tick":
        ctx.check(sym_not(node.seen[0]), "outputs are not marked updated when a tick starts")
        for c in ins.values():
            ctx.check(sym_not(c.is_updated()), "a tick clears the updated marks of the inputs")
        ctx.check(sym_not(outs["p"].is_updated()), "only outputs written in this tick are marked updated")
        if not node.write:
            ctx.check(sym_not(outs["o"].is_updated()), "only outputs written in this tick are marked updated")
    elif op == "untick":
        for c in outs.values():
            ctx.check(sym_not(c.is_updated()), "untick clears the updated marks of the outputs")


def harnesses(tier):
    t = tier == "thorough"
    all_ops = ["setup", "tick", "untick", "reset", "shutdown"]
    return [
        H("fresh", life, dict(ops=[], free=3 if t else 2), "%d calls chosen from 6 on a new node, results any state or error" % (3 if t else 2),
          reach=("refused-tick", "refused-untick", "refused-reset", "ok-setup", "err-setup", "invalid-setup", "ok-shutdown")),
        H("running", life, dict(ops=["setup", "input"], free=4 if t else 3), "setup, input, then %d calls chosen from 6, results any state or error" % (4 if t else 3),
          reach=["%s-%s" % (a, b) for a in ("ok", "err", "invalid") for b in all_ops if b != "setup"] + ["refused-" + b for b in all_ops if b != "shutdown"]),
        H("again", life, dict(ops=["setup", "input", "tick", "shutdown", "setup"], free=2), "a second life after shutdown, 2 further calls", reach=("unset", "ok-setup")),
    ]
