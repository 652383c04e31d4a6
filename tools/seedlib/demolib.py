"""Loads ros_bt_py from the current directory's tree on top of stand-ins for ROS (uninstrumented)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("VERIF_REPO", os.getcwd())
sys.path.insert(0, HERE)
from env import engine, instrument, stubs  # noqa
instrument.install(False)
stubs.reset_world()
import uuid  # noqa
import rclpy.node  # noqa
from ros_bt_py_interfaces.msg import *  # noqa
from ros_bt_py_interfaces.srv import *  # noqa
from ros_bt_py.vendor.result import Ok, Err  # noqa
from ros_bt_py.exceptions import *  # noqa
from ros_bt_py.helpers import BTNodeState as S  # noqa
from ros_bt_py.node import Node, Leaf, FlowControl, Decorator, define_bt_node  # noqa
from ros_bt_py.node_config import NodeConfig  # noqa
import ros_bt_py.data_types as dt  # noqa

ROS = rclpy.node.Node("demo")


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Script(Leaf):
    """leaf returning the given results one after another (the last one forever)"""
    results = ()
    util = None
    log = None

    def _note(self, what):
        if self.log is not None:
            self.log.append((self.name, what))

    def _do_setup(self):
        self._note("setup")
        return Ok(S.IDLE)

    def _do_tick(self):
        self._note("tick")
        r = self.results[0] if self.results else S.SUCCEEDED
        if len(self.results) > 1:
            self.results = self.results[1:]
        if r == "ERR":
            return Err(BehaviorTreeException("script"))
        return Ok(r)

    def _do_untick(self):
        self._note("untick")
        return Ok(S.IDLE)

    def _do_reset(self):
        self._note("reset")
        return Ok(S.IDLE)

    def _do_shutdown(self):
        self._note("shutdown")
        return Ok(S.SHUTDOWN)

    def _do_calculate_utility(self):
        return Ok(self.util if self.util is not None else UtilityBounds())


def leaf(name, *results, log=None, util=None):
    n = Script(name=name, ros_node=ROS)
    n.results, n.log, n.util = tuple(results), log, util
    return n


def build(node, *children):
    for c in children:
        r = node.add_child(c)
        if hasattr(r, "is_err"):
            assert r.is_ok(), r
    return node


def get(r):
    return r.unwrap()


def expect(cond, what):
    if not cond:
        print("DEMO FAILED:", what)
        sys.exit(1)


def done():
    print("demo ok")
    sys.exit(0)
