"""Shared pieces of the data-type harnesses."""
from harness.common import *
import ros_bt_py.data_types as DT
from ros_bt_py.data_types import (BoolType, IntType, FloatType, StringType, PathType, BytesType, ListType, DictType, GenericType,
                                  RosTopicName, RosServiceName, RosActionName, RosMessageType, RosTopicType, RosServiceType, RosActionType,
                                  RosComponentType, ReferenceType, ReferenceListType, ReferenceDictType, GENERIC_TYPE_MAP,
                                  get_iotype_for_msg)
import vf_msgs.msg as vmsg
import vf_msgs.srv as vsrv
import vf_msgs.action as vact

NONE = "!none"


def cur(c):
    r = c.get_value()
    return NONE if r.is_err() else r.unwrap()


def same(a, b):
    if isinstance(a, str) and not is_proxy(a) and a == NONE:
        return isinstance(b, str) and not is_proxy(b) and b == NONE
    return sym_deep_eq(a, b)


def offer(ctx, c, v, valid, what):
    """set_value accepts exactly the valid values; a rejected value changes nothing."""
    before = cur(c)
    r = c.set_value(v)
    ctx.check(r.is_ok() == valid, what + ": a value is accepted exactly if it satisfies the constraints")
    if r.is_ok():
        ctx.check(c.has_value(), what + ": an accepted value is present")
        ctx.check(same(cur(c), v), what + ": an accepted value is stored unchanged")
        ctx.reach("accepted")
    else:
        ctx.check(same(cur(c), before), what + ": a rejected value leaves the previous one")
        ctx.reach("rejected")
    return r.is_ok()


def refuse(ctx, c, v, what):
    """A value of the wrong type is refused (an error or an exception) and changes nothing."""
    before = cur(c)
    ctx.check(rejected(lambda: c.set_value(v)), what + ": a value of the wrong type is refused")
    ctx.check(same(cur(c), before), what + ": a refused value leaves the previous one")
    ctx.reach("refused")
