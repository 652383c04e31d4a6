"""Shared pieces of the harnesses: probe nodes with solver-chosen behaviour, small helpers."""
import uuid

from vf import engine, stubs  # noqa: F401
from vf.engine import sym_and, sym_or, sym_not, sym_implies, sym_deep_eq, is_proxy  # noqa: F401
from vf.run import H  # noqa: F401

from ros_bt_py.vendor.result import Ok, Err, Result  # noqa: F401
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.helpers import BTNodeState as S
from ros_bt_py.node import Node, Leaf, Decorator, FlowControl, define_bt_node  # noqa: F401
from ros_bt_py.node_config import NodeConfig, NodeInputMap, NodeOutputMap  # noqa: F401
from ros_bt_py_interfaces.msg import UtilityBounds  # noqa: F401

R, SU, F, ERR = S.RUNNING, S.SUCCEEDED, S.FAILED, "!err"
ALL4 = (R, SU, F, ERR)
RSF = (R, SU, F)


def U(n):
    return uuid.UUID(int=(0x5000 + n))


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Probe(Leaf):
    """A child whose results are chosen by the solver and whose calls are recorded."""

    def plan(self, ctx, tag, log, ticks=RSF, untick=(S.IDLE,), reset=(S.IDLE,), setup=(S.IDLE,), shutdown=(S.SHUTDOWN,),
             utility=None):
        self.ctx, self.tag, self.log = ctx, tag, log
        self.opts = {"tick": ticks, "untick": untick, "reset": reset, "setup": setup, "shutdown": shutdown}
        self.n = {k: 0 for k in self.opts}
        self.active = False
        self.utility = utility
        return self

    def calm(self):
        self.opts = {"tick": (SU,), "untick": (S.IDLE,), "reset": (S.IDLE,), "setup": (S.IDLE,), "shutdown": (S.SHUTDOWN,)}

    def _op(self, op):
        n = self.n[op]
        self.n[op] = n + 1
        o = self.opts[op]
        r = o[0] if len(o) == 1 else self.ctx.enum("%s.%s%d" % (self.tag, op, n), o)
        self.log.append((op, self.tag, r))
        if ERR in o and r == ERR:
            self.active = None
            return Err(BehaviorTreeException("probe"))
        if op == "tick":
            self.active = r == R
        elif r == S.IDLE or r == S.SHUTDOWN:
            self.active = False
        return Ok(r)

    def _do_setup(self):
        return self._op("setup")

    def _do_tick(self):
        return self._op("tick")

    def _do_untick(self):
        return self._op("untick")

    def _do_reset(self):
        return self._op("reset")

    def _do_shutdown(self):
        return self._op("shutdown")

    def _do_calculate_utility(self):
        if self.utility is None:
            return super()._do_calculate_utility()
        return self.utility


def probe(ctx, tag, log, **k):
    return Probe(node_id=uuid.UUID(int=0x100000 + len(log) * 0 + abs(hash_tag(tag))), name=str(tag)).plan(ctx, tag, log, **k)


def hash_tag(tag):
    n = 7
    for c in str(tag):
        n = n * 131 + ord(c)
    return n % (1 << 60)


def probes(ctx, node, n, log, **k):
    out = []
    for i in range(n):
        p = probe(ctx, "c%d" % i, log, **k)
        ok(ctx, node.add_child(p), "add_child")
        out.append(p)
    return out


def ok(ctx, r, what):
    """The call must succeed (used for steps whose success is part of the property)."""
    if r.is_err():
        ctx.fail(what + " failed")
    return r.unwrap()


def val(r):
    """Status of a Result as a value: the Ok value or ERR."""
    if r.is_err():
        return ERR
    return r.unwrap()


def rejected(fn):
    """True if fn() is refused: returns Err or raises an Exception."""
    try:
        r = fn()
    except Exception:
        return True
    return r.is_err()


def ticks_of(log, start=0):
    return [(t, r) for (op, t, r) in log[start:] if op == "tick"]


def quiet(p):
    """The child does not execute in the background."""
    if p.active is None:
        return True
    return sym_not(p.active)
