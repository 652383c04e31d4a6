"""Shared pieces of the harnesses of data processing nodes."""
import math

from harness.inner import *
from ros_bt_py.data_types import (BoolType, GenericType, ListType, IntType, RosTopicType, RosComponentType, ReferenceContainer, TypeContainerMixin, RosContainer, GENERIC_TYPE_MAP,
                                  get_message_field_io_type)

UNSET = "!unset"


def make(ctx, cls, types=None, static=None, node_id=1, ros=True):
    """A node whose type inputs have the given values and whose other inputs are dynamic (unless given in static)."""
    new = {}
    for key, c in cls._node_config.inputs.items():
        v = (types or {}).get(key)
        if v is not None:
            if isinstance(c, GenericType):
                new[key] = GenericType(valid_types=c.valid_types, value=v if isinstance(v, dict) else GENERIC_TYPE_MAP[v])
            else:
                new[key] = type(c)(value=v)
        elif key not in (static or {}) and c.allow_dynamic:
            m = c.serialize_type()
            m.is_static = False
            new[key] = type(c).from_msg(m).unwrap()
    for c in new.values():
        if isinstance(c, ReferenceContainer):
            ok(ctx, c.set_type_map(dict(cls._node_config.inputs, **new)), "set_type_map")
    n = cls(node_id=U(node_id), name="n%d" % node_id, ros_node=rclpy.node.Node("n") if ros else None, new_inputs=new)
    for key, v in (static or {}).items():
        put(ctx, n, key, v)
    return n


def put(ctx, n, key, v):
    ok(ctx, n.node_config.inputs[key].set_value(v), "set " + key)


def out(n, key):
    r = n.node_config.outputs[key].get_value()
    return UNSET if r.is_err() else r.unwrap()


def tick(ctx, n):
    """The result of a tick; an error leaves the node BROKEN, otherwise the result is its state."""
    r = n.tick()
    ctx.check(n.state == (S.BROKEN if r.is_err() else r.unwrap()), "the result of a tick is the state of the node")
    return val(r)


def started(ctx, n):
    ok(ctx, n.setup(), "setup")
    return n
