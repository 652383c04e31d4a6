"""Data types survive the round trip through their message form."""
import copy
from ros_bt_py.data_types import DataContainer
from harness.data import *

FL = [(None, None), (0.1, 2.5), (-1e-300, 1e300), (-2.0, -0.3333333333333333)]


def flags(ctx, tag=""):
    return ctx.pick("flags" + tag, [dict(allow_dynamic=True, allow_static=True, is_static=True), dict(allow_dynamic=True, allow_static=True, is_static=False),
                                    dict(allow_dynamic=True, allow_static=False, is_static=False), dict(allow_dynamic=False, allow_static=True, is_static=True)])


def leaf(ctx, kind, tag, kw):
    if kind == "bool":
        return BoolType(**kw)
    if kind == "int":
        lo, hi = ctx.int(tag + ".min", -(2 ** 63), 2 ** 64 - 1), ctx.int(tag + ".max", -(2 ** 63), 2 ** 64 - 1)
        ctx.assume(lo <= hi)
        return IntType(min_value=lo, max_value=hi, **kw)
    if kind == "float":
        lo, hi = ctx.pick(tag + ".lim", FL)
        return FloatType(min_value=lo, max_value=hi, **kw)
    if kind == "string":
        o = [ctx.str(tag + ".o%d" % i, 2) for i in range(2)] if ctx.pick(tag + ".opts", [0, 1]) else None
        return StringType(max_length=ctx.int(tag + ".len", 0, 2 ** 64 - 1) if ctx.pick(tag + ".lim", [0, 1]) else None, valid_values=o, **kw)
    if kind == "path":
        return PathType(max_length=ctx.int(tag + ".len", 0, 2 ** 64 - 1), **kw)
    if kind == "bytes":
        return BytesType(max_length=ctx.int(tag + ".len", 0, 2 ** 64 - 1) if ctx.pick(tag + ".lim", [0, 1]) else None, **kw)
    if kind == "msg":
        return RosMessageType(message_type=ctx.pick(tag + ".m", [vmsg.Flat, vmsg.Nested, vsrv.Ask.Request, vact.Mix.Goal]), interface_id=ctx.int(tag + ".id", 0, 3), **kw)
    if kind == "name":
        return ctx.pick(tag + ".c", [RosTopicName, RosServiceName, RosActionName])(interface_id=ctx.int(tag + ".id", 0, 3), **kw)
    if kind == "rostype":
        return ctx.pick(tag + ".c", [RosTopicType, RosServiceType, RosActionType, RosComponentType])(interface_id=ctx.int(tag + ".id", 0, 3))
    if kind == "generic":
        return GenericType(valid_types=ctx.pick(tag + ".v", [[int], [int, str, list], list(GENERIC_TYPE_MAP), [object, bytes, dict, float, bool]]))
    raise KeyError(kind)


def agree(ctx, a, b, what):
    """The two types describe the same set of values and the same access rights."""
    ctx.check(type(a) is type(b), what + ": same kind of type")
    ctx.check(sym_and(a.allow_dynamic == b.allow_dynamic, a.allow_static == b.allow_static, a.is_static == b.is_static), what + ": same access rights")
    ctx.check(a.is_compatible(b), what + ": the copy is compatible with the original")
    ctx.check(b.is_compatible(a), what + ": the original is compatible with the copy")
    ctx.check(sym_deep_eq(a.serialize_type(), b.serialize_type()), what + ": the copy has the same message form")
    for k in ("min_value", "max_value", "max_length", "valid_values", "strict_length", "message_type", "valid_types", "interface_id"):
        if hasattr(a, k):
            ctx.check(sym_deep_eq(getattr(a, k), getattr(b, k)), what + ": same " + k)


def trip(ctx, kind):
    kw = flags(ctx) if kind not in ("rostype", "generic") else {}
    c = leaf(ctx, kind, "t", kw)
    m = c.serialize_type()
    before = copy.deepcopy(m)
    r = get_iotype_for_msg(m)
    d = ok(ctx, r, "reading a serialized type")
    agree(ctx, c, d, "type")
    ctx.check(sym_deep_eq(m, before), "reading a type leaves its message unchanged")
    ctx.check(sym_deep_eq(m, c.serialize_type()), "serializing a type twice gives the same message")
    ctx.reach("done")


def nest(ctx, depth, kinds):
    kw = flags(ctx)
    el = leaf(ctx, ctx.pick("leaf", kinds), "t", {})
    shape, c = [], el
    for i in range(depth):
        cls = ctx.pick("shape%d" % i, [ListType, DictType])
        n, strict = ctx.int("len%d" % i, 0, 2 ** 64 - 1), ctx.bool("strict%d" % i)
        shape.append((cls, n, strict))
        c = cls(element_type=c, max_length=n, strict_length=strict, **(kw if i == depth - 1 else {}))
    m = c.serialize_type()
    d = ok(ctx, get_iotype_for_msg(m), "reading a serialized nested type")
    agree(ctx, c, d, "nested type")
    x = d
    for i, (cls, n, strict) in enumerate(reversed(shape)):
        ctx.check(type(x) is cls, "every nesting level keeps its kind")
        ctx.check(sym_and(x.max_length == n, x.strict_length == strict), "every nesting level keeps its length limit")
        x = getattr(x, "_element_type", None) or next(v for v in vars(x).values() if isinstance(v, DataContainer))
    ctx.check(type(x) is type(el), "the innermost element type is kept")
    for k in ("min_value", "max_value", "valid_values", "message_type"):
        if hasattr(el, k):
            ctx.check(sym_deep_eq(getattr(el, k), getattr(x, k)), "the innermost limits are kept")
    ctx.reach("done")


def same_values(ctx):
    """The copy accepts exactly what the original accepts (nested, by behaviour)."""
    n0, n1, hi = ctx.int("len0", 0, 2), ctx.int("len1", 0, 2), ctx.int("max", 0, 3)
    s0, s1 = ctx.bool("strict0"), ctx.bool("strict1")
    c = ListType(element_type=ListType(element_type=IntType(min_value=0, max_value=hi), max_length=n1, strict_length=s1), max_length=n0, strict_length=s0, is_static=False)
    d = ok(ctx, get_iotype_for_msg(c.serialize_type()), "reading a serialized nested type")
    shape = ctx.pick("shape", [(), (0,), (1,), (2,), (1, 1), (2, 1), (1, 1, 1)])
    v = [[ctx.int("x%d_%d" % (i, j), -1, 5) for j in range(m)] for i, m in enumerate(shape)]
    a, b = c.set_value(v).is_ok(), d.set_value(v).is_ok()
    ctx.check(a == b, "the copy of a nested type accepts the same values")
    ctx.reach("accepted" if a else "rejected")


def refs(ctx):
    cls = ctx.pick("cls", [ReferenceType, ReferenceListType, ReferenceDictType])
    t = ctx.pick("type", [int, str, float, bool, list])
    fl = flags(ctx)
    target = GenericType()
    ok(ctx, target.set_value(copy.deepcopy(GENERIC_TYPE_MAP[t])), "a valid type")
    c = cls(reference="target", **fl)
    if ctx.bool("bound"):
        ok(ctx, c.set_type_map({"target": target}), "a reference to a type input")
    d = ok(ctx, get_iotype_for_msg(c.serialize_type()), "reading a serialized reference")
    ctx.check(type(d) is cls, "reference: same kind of type")
    ctx.check(sym_and(c.is_compatible(d), d.is_compatible(c)), "reference: both are compatible")
    ctx.check(sym_and(d.allow_dynamic == fl["allow_dynamic"], d.allow_static == fl["allow_static"], d.is_static == fl["is_static"]), "reference: same access rights")
    ok(ctx, d.set_type_map({"target": target}), "the copy refers to the same input")
    ctx.check(d.set_type_map({"other": target}).is_err(), "the copy refers to the same input only")
    ctx.reach("done")


def runtime(ctx, kind):
    """The runtime type has the same limits and exactly the access right in use."""
    c = leaf(ctx, kind, "t", flags(ctx))
    d = c.get_runtime_type()
    ctx.check(type(d) is type(c), "the runtime type is of the same kind")
    ctx.check(sym_and(d.allow_static == c.is_static, d.allow_dynamic == sym_not(c.is_static), d.is_static == c.is_static), "the runtime type allows exactly the access in use")
    for k in ("min_value", "max_value", "max_length", "valid_values"):
        if hasattr(c, k):
            ctx.check(sym_deep_eq(getattr(c, k), getattr(d, k)), "the runtime type has the same limits")
    ctx.reach("done")


BAD = ["", "x", "1.5", "-", "0x1", "1e3", "nan", " 1"]


def malformed(ctx):
    """Messages that describe no type give an error, not an exception, or a type within what was described."""
    NDT = DT.NodeDataType
    m = NDT(type_identifier=ctx.pick("id", list(range(0, 18))), allow_dynamic=ctx.bool("dyn"), allow_static=ctx.bool("stat"), is_static=ctx.bool("is_static"))
    m.min_value = ctx.pick("min", ["", "x", "5"])
    m.max_value = ctx.pick("max", ["", "3", "9"])
    m.ros_interface_kind = ctx.pick("kind", [0, 1, 4])
    m.ros_msg_type = ctx.pick("msg", ["", "vf_msgs/msg/Flat", "a/b", "no_pkg/msg/X"])
    r = get_iotype_for_msg(m)
    if r.is_ok():
        d = r.unwrap()
        ctx.check(d.type_identifier == m.type_identifier, "a type read from a message is of the described kind")
        ctx.reach("ok")
    else:
        ctx.reach("err")


def malformed_nested(ctx):
    NDT = DT.NodeDataType
    m = NDT(type_identifier=ctx.pick("id", [NDT.LIST_TYPE, NDT.DICT_TYPE]), allow_dynamic=True, allow_static=True, is_static=False)
    m.min_value, m.max_value = "1", "2"
    m.value_type_identifier = ctx.pick("values", [[], [NDT.INT_TYPE], [NDT.LIST_TYPE], [NDT.LIST_TYPE, NDT.INT_TYPE], [99]])
    m.iterable_max_length = ctx.pick("lens", [[], [1], [1, 2], [1, 2, 3]])
    m.iterable_strict_length = ctx.pick("stricts", [[], [True], [True, False]])
    r = get_iotype_for_msg(m)
    good = (len(m.value_type_identifier) in (1, 2) and m.value_type_identifier[-1] == NDT.INT_TYPE
            and len(m.iterable_max_length) >= len(m.value_type_identifier) and len(m.iterable_strict_length) >= len(m.value_type_identifier))
    ctx.check(r.is_ok() == good, "a nested type is read exactly if every level is described")
    ctx.reach("ok" if r.is_ok() else "err")


def harnesses(tier):
    t = tier == "thorough"
    kinds = ["bool", "int", "float", "string", "path", "bytes", "msg", "name", "rostype", "generic"]
    out = [H(k, trip, dict(kind=k), "all access rights, limits symbolic (floats: 4 pairs)", reach=("done",)) for k in kinds]
    out += [H("runtime-" + k, runtime, dict(kind=k), "all access rights, limits symbolic", reach=("done",)) for k in ("int", "string", "bytes", "bool", "name")]
    for d in (1, 2, 3) if t else (1, 2):
        out.append(H("nested%d" % d, nest, dict(depth=d, kinds=["int", "string", "msg", "bytes", "float"] if d < 2 or t else ["int", "string"]), "%d levels of lists/dicts, limits symbolic" % d, reach=("done",)))
    if not t:
        out.append(H("nested3", nest, dict(depth=3, kinds=["int"]), "3 levels of lists/dicts of integers, limits symbolic", reach=("done",)))
    out.append(H("same-values", same_values, {}, "list of lists of integers, limits and values symbolic", reach=("accepted", "rejected")))
    out.append(H("references", refs, {}, "3 kinds x 5 types, bound and unbound", reach=("done",)))
    out.append(H("malformed", malformed, {}, "18 identifiers x 3x3 limits x 3 kinds x 4 messages", reach=("ok", "err")))
    out.append(H("malformed-nested", malformed_nested, {}, "incomplete nesting descriptions", reach=("ok", "err")))
    return out
