"""Values survive the round trip through their text form; malformed text is refused."""
import copy
from harness.data import *


def flat(ctx, tag):
    m = vmsg.Flat()
    m.b, m.i, m.s, m.u = ctx.bool(tag + ".b"), ctx.int(tag + ".i", -2 ** 31, 2 ** 31 - 1), ctx.str(tag + ".s", 3), ctx.int(tag + ".u", 0, 255)
    m.f = ctx.pick(tag + ".f", [0.0, 0.1])
    return m


def nestedm(ctx, small):
    m = vmsg.Nested()
    m.inner = flat(ctx, "inner")
    m.label = ctx.str("label", 3)
    n = ctx.pick("nums", [0, 2])
    m.nums = [ctx.int("num%d" % i, -2 ** 15, 2 ** 15 - 1) for i in range(n)]
    m.items = [] if small else [flat(ctx, "it%d" % i) for i in range(ctx.pick("items", [0, 1]))]
    m.names = [ctx.str("name%d" % i, 2) for i in range(ctx.pick("names", [0, 2]))]
    m.pair = [ctx.int("p0", 0, 255), ctx.int("p1", 0, 255)]
    return m


def make(ctx, kind):
    """(container, value)"""
    kw = dict(is_static=ctx.bool("static"))
    if kind == "bool":
        return BoolType(**kw), ctx.bool("v")
    if kind == "int":
        return IntType(**kw), ctx.int("v", -(2 ** 63), 2 ** 64 - 1)
    if kind == "float":
        return FloatType(**kw), ctx.pick("v", [0.0, 0.1, -1e-300, 1.7976931348623157e308, 1 / 3, 5e-324, -2.0])
    if kind == "string":
        if ctx.bool("special"):
            return StringType(**kw), ctx.pick("v", ["", "\"", "\\", "a\nb", "\u00e4\u20ac", "\U0001f600", "null", "\t\x00", "{\"a\": 1}"])
        return StringType(**kw), ctx.str("v", 4)
    if kind == "path":
        return PathType(**kw), "file://" + ctx.str("v", 4)
    if kind == "bytes":
        return BytesType(max_length=8, **kw), ctx.pick("v", [b"", b"\x00", b"a", b"\xff\x00\x10", bytes(range(8))])
    if kind == "list-int":
        return ListType(element_type=IntType(), **kw), [ctx.int("v%d" % i, -99, 99) for i in range(ctx.pick("n", [0, 1, 3]))]
    if kind == "list-str":
        return ListType(element_type=StringType(), **kw), [ctx.str("v%d" % i, 2) for i in range(ctx.pick("n", [0, 1, 2]))]
    if kind == "list-bytes":
        return ListType(element_type=BytesType(max_length=2), **kw), ctx.pick("v", [[], [b"a"], [b"\x00", b"\xff\x01"]])
    if kind == "dict-int":
        return DictType(element_type=IntType(), **kw), {k: ctx.int("v" + k, -99, 99) for k in ctx.pick("k", [[], ["a"], ["a", "b c"]])}
    if kind == "nest":
        o = ctx.pick("outer", [ListType, DictType])
        i = ctx.pick("inner", [ListType, DictType])
        xs = [ctx.str("x%d" % j, 2) for j in range(ctx.pick("n", [0, 1, 2]))]
        iv = xs if i is ListType else {"k%d" % j: x for j, x in enumerate(xs)}
        return o(element_type=i(element_type=StringType()), **kw), ([iv, copy.copy(iv)] if o is ListType else {"p": iv})
    if kind == "list-msg":
        return ListType(element_type=RosMessageType(message_type=vmsg.Flat), **kw), [flat(ctx, "m%d" % i) for i in range(ctx.pick("n", [0, 1, 2]))]
    if kind == "dict-msg":
        return DictType(element_type=RosMessageType(message_type=vmsg.Flat), **kw), {"a": flat(ctx, "m")}
    if kind == "msg":
        return RosMessageType(message_type=vmsg.Flat, **kw), flat(ctx, "m")
    if kind == "nested-msg":
        return RosMessageType(message_type=vmsg.Nested, **kw), nestedm(ctx, True)
    if kind == "nested-msg-items":
        m = vmsg.Nested()
        m.items = [flat(ctx, "it%d" % i) for i in range(ctx.pick("items", [0, 1, 2]))]
        return RosMessageType(message_type=vmsg.Nested, **kw), m
    if kind == "name":
        return ctx.pick("c", [RosTopicName, RosServiceName, RosActionName])(**kw), ctx.str("v", 4)
    if kind == "rostype":
        c, v = ctx.pick("c", [(RosTopicType, vmsg.Flat), (RosTopicType, vmsg.Nested), (RosServiceType, vsrv.Ask), (RosActionType, vact.Mix),
                              (RosComponentType, vsrv.Ask.Request), (RosComponentType, vact.Mix.Feedback), (RosComponentType, vmsg.Enum)])
        return c(), v
    if kind == "generic":
        t = ctx.pick("t", list(GENERIC_TYPE_MAP))
        v = copy.deepcopy(GENERIC_TYPE_MAP[t])
        if t in (list, dict):
            v["element_type"] = copy.deepcopy(GENERIC_TYPE_MAP[ctx.pick("e", list(GENERIC_TYPE_MAP))])
        if t is int:
            v["min_value"], v["max_value"] = ctx.int("lo", -(2 ** 63), 2 ** 64 - 1), ctx.int("hi", -(2 ** 63), 2 ** 64 - 1)
        return GenericType(), v
    if kind.startswith("ref"):
        cls = {"ref": ReferenceType, "reflist": ReferenceListType, "refdict": ReferenceDictType}[kind]
        t = ctx.pick("t", [int, str])
        target = GenericType()
        ok(ctx, target.set_value(copy.deepcopy(GENERIC_TYPE_MAP[t])), "a valid type")
        c = cls(reference="t", **kw)
        ok(ctx, c.set_type_map({"t": target}), "a reference to a type input")
        v = ctx.int("v", -9, 9) if t is int else ctx.str("v", 3)
        return c, {"ref": v, "reflist": [v], "refdict": {"k": v}}[kind]
    raise KeyError(kind)


def trip(ctx, kind):
    c, v = make(ctx, kind)
    ok(ctx, c.set_value(v), "a valid value")
    s = c.serialize_value()
    ctx.check(isinstance(s, str), "a value is serialized to text")
    if kind.startswith("ref"):
        d = copy.deepcopy(c)
        d.reset_updated()
    else:
        d = ok(ctx, get_iotype_for_msg(c.serialize_type()), "reading a serialized type")
    ok(ctx, d.deserialize_value(s), "reading a serialized value")
    ctx.check(sym_deep_eq(cur(d), v), "a value is the same after the round trip")
    ctx.check(sym_deep_eq(d.serialize_value(), s), "the text of a value is the same after the round trip")
    ctx.check(sym_deep_eq(cur(c), v), "serializing a value leaves it unchanged")
    ctx.reach("done")


def unset(ctx):
    c = ctx.pick("c", [BoolType, IntType, FloatType, StringType, PathType, BytesType, ListType, DictType])(is_static=False)
    c.reset_value()
    ctx.check(c.serialize_value() == "", "an unset value is serialized to empty text")
    ctx.reach("done")


TEXTS = ["", " ", "{", "nul", "[1", "\"a", "1 2", "null", "true", "-", "5", "1.5", "\"x\"", "\"6162\"", "\"zz\"", "[]", "[\"a\"]", "[null]", "[[1]]", "{}", "{\"a\": 1}",
         "{\"a\": null}", "{\"a\": {\"b\": []}}", "99999999999999999999999", "NaN", "Infinity", "\"file://x\"", "\"vf_msgs/msg/Flat\"", "\"vf_msgs/msg/Nope\"", "\"a/b\"",
         "{\"type_identifier\": 1}", "{\"type_identifier\": 77}", "{\"i\": \"x\"}", "{\"i\": 1, \"zzz\": 2}", "{\"i\": 4}"]


def holds(kind, v):
    """v satisfies the constraints of the container `malformed` builds."""
    if kind == "bool":
        return isinstance(v, bool)
    if kind == "int":
        return isinstance(v, int) and -3 <= v <= 30
    if kind == "float":
        return isinstance(v, float) and -3.0 <= v <= 30.0
    if kind == "string":
        return isinstance(v, str) and len(v) <= 3
    if kind == "path":
        return isinstance(v, str) and v.startswith(("file://", "package://"))
    if kind == "bytes":
        return isinstance(v, bytes) and len(v) <= 2
    if kind == "list":
        return isinstance(v, list) and all(isinstance(x, int) for x in v)
    if kind == "dict":
        return isinstance(v, dict) and all(isinstance(x, int) for x in v.values())
    if kind == "generic":
        return isinstance(v, dict) and v.get("type_identifier") in (1, 2)
    if kind == "topic":
        return v in (vmsg.Flat, vmsg.Nested)
    if kind == "msg":
        return isinstance(v, vmsg.Flat)
    return False


def malformed(ctx, kind):
    c = {"bool": lambda: BoolType(), "int": lambda: IntType(min_value=-3, max_value=30), "float": lambda: FloatType(min_value=-3.0, max_value=30.0), "string": lambda: StringType(max_length=3),
         "path": lambda: PathType(), "bytes": lambda: BytesType(max_length=2), "list": lambda: ListType(element_type=IntType()),
         "dict": lambda: DictType(element_type=IntType()), "generic": lambda: GenericType(valid_types=[bool, int]), "topic": lambda: RosTopicType(),
         "msg": lambda: RosMessageType(message_type=vmsg.Flat)}[kind]()
    text = ctx.pick("text", TEXTS)
    before = cur(c)
    r = c.deserialize_value(text)
    if r.is_ok():
        ctx.check(holds(kind, cur(c)), "text that is accepted yields a value that satisfies the constraints")
        ctx.reach("ok")
    else:
        ctx.check(same(cur(c), before), "refused text leaves the previous value")
        ctx.reach("err")


KINDS = ["bool", "int", "float", "string", "path", "bytes", "list-int", "list-str", "list-bytes", "dict-int", "nest", "list-msg", "dict-msg", "msg", "nested-msg",
         "nested-msg-items", "name", "rostype", "generic", "ref", "reflist", "refdict"]


def harnesses(tier):
    out = [H(k, trip, dict(kind=k), "value symbolic (numbers full range, text <=4; floats, bytes, classes from lists)", reach=("done",)) for k in KINDS]
    out.append(H("unset", unset, {}, "8 types", reach=("done",)))
    out += [H("malformed-" + k, malformed, dict(kind=k), "%d texts" % len(TEXTS), reach=("err",)) for k in ("bool", "int", "float", "string", "path", "bytes", "list", "dict", "generic", "topic", "msg")]
    return out
