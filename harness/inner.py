"""Construction of every inner node class with probe children."""
from harness.common import *
from ros_bt_py.nodes import decorators as D
from ros_bt_py.nodes.sequence import Sequence, MemorySequence
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback, NameSwitch
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py.ros_nodes.throttle import Throttle, ThrottleSuccess
from ros_bt_py.data_types import RosComponentType
import rclpy.node

FLOW = {"Sequence": Sequence, "MemorySequence": MemorySequence, "Fallback": Fallback, "MemoryFallback": MemoryFallback,
        "Parallel": Parallel, "ParallelFailureTolerance": ParallelFailureTolerance, "NameSwitch": NameSwitch, "EnumSwitch": EnumSwitch}
DECO = {n: getattr(D, n) for n in ("IgnoreFailure", "IgnoreRunning", "IgnoreSuccess", "UntilSuccess", "Inverter", "Retry", "Repeat",
                                   "RepeatNoAutoReset", "RepeatAlways", "RepeatUntilFail", "RepeatIfFail", "Optional", "Watch")}
DECO["Throttle"] = Throttle
DECO["ThrottleSuccess"] = ThrottleSuccess

STATIC = {"IgnoreRunning": {"running_is_success": True}, "Retry": {"num_retries": 1}, "Repeat": {"num_repeats": 1},
          "RepeatNoAutoReset": {"num_repeats": 1}, "Parallel": {"needed_successes": 1},
          "ParallelFailureTolerance": {"needed_successes": 1, "tolerate_failures": 0},
          "Throttle": {"tick_interval": 2.0}, "ThrottleSuccess": {"tick_interval": 2.0}}
DYN = {"RepeatNoAutoReset": {"reset": False}, "Watch": {"watch": "w"}, "NameSwitch": {"name": "A"}, "EnumSwitch": {"case": 0}}
NAMES = ["A", "B", "C"]


def make_inner(ctx, name, nid=None, **over):
    cls = FLOW.get(name) or DECO[name]
    kw = {"name": name}
    if name == "EnumSwitch":
        from vf_msgs.msg import Enum
        kw["new_inputs"] = {"ros_message_type": RosComponentType(value=Enum)}
    node = cls(node_id=nid or U(hash_tag(name) % 100000), ros_node=rclpy.node.Node("n"), **kw)
    for k, v in dict(STATIC.get(name, {}), **over).items():
        ok(ctx, node.node_config.inputs[k].set_value(v), "set " + k)
    return node


def dyn(ctx, node):
    """Give the dynamic inputs a value (to be done after setup)."""
    for k, v in DYN.get(type(node).__name__, {}).items():
        ok(ctx, node.node_config.inputs[k].set_value(v), "set " + k)


def add(ctx, node, names, log, **k):
    out = []
    for nm in names:
        p = probe(ctx, nm, log, **k)
        ok(ctx, node.add_child(p), "add_child")
        out.append(p)
    return out
