"""Fields of ROS messages: the data types derived from them take exactly the values the fields take."""
from harness.data import *
from harness.nodes import make, put, out, tick  # noqa: F401
import string_msgs.msg as smsg
import wstring_msgs.msg as wmsg

ASSUMPTIONS = ["infinite and NaN numbers, booleans in number fields and empty byte fields are left open"]
INF = float("inf")


def I(bits, signed):
    return ("int", -(2 ** (bits - 1)) if signed else 0, 2 ** (bits - 1) - 1 if signed else 2 ** bits - 1)


PRIMS = {"boolean": ("bool",), "octet": ("octet",), "float": ("float", 3.4028234e38, 3.4028236e38), "double": ("float", 1.7976931348623157e308, INF),
         "string": ("str", None), "wstring": ("str", None), "string<3>": ("str", 3), "wstring<1>": ("str", 1), "string<0>": ("str", 0),
         "vf_msgs/Flat": ("msg", vmsg.Flat), "vf_msgs/Two": ("msg", vmsg.Two), "string_msgs/Label": ("msg", smsg.Label), "wstring_msgs/Label": ("msg", wmsg.Label)}
for b in (8, 16, 32, 64):
    PRIMS["int%d" % b] = I(b, True)
    PRIMS["uint%d" % b] = I(b, False)
OTHER = {vmsg.Flat: vmsg.Two, vmsg.Two: vmsg.Flat, smsg.Label: wmsg.Label, wmsg.Label: smsg.Label}


def value(ctx, n, spec):
    """any value of the kind of the field, and whether the field takes it"""
    k = spec[0]
    if k == "int":
        v = ctx.int(n)
        return v, sym_and(spec[1] <= v, v <= spec[2])
    if k == "bool":
        return ctx.bool(n), True
    if k == "float":
        v = ctx.real(n)
        ctx.assume(sym_not(sym_or(sym_and(v > spec[1], v < spec[2]), sym_and(v < -spec[1], v > -spec[2]))))
        return v, sym_and(-spec[1] <= v, v <= spec[1])
    if k == "str":
        v = ctx.str(n, (3 if spec[1] is None else spec[1]) + 1)
        return v, True if spec[1] is None else len(v) <= spec[1]
    if k == "octet":
        v = ctx.pick(n, [b"\x00", b"\xff", b"a", b"ab", b"\x00\x00"])
        return v, len(v) == 1
    if k == "msg":
        if ctx.pick(n + ".right", [True, False]):
            return spec[1](), True
        return OTHER[spec[1]](), False
    size, el = spec[2], spec[1]
    m = ctx.pick(n + ".len", range((2 if size is None else size) + 2))
    vs = [value(ctx, "%s.%d" % (n, i), el) for i in range(m)]
    ok = m == size if k == "arr" else size is None or m <= size
    return [v for v, _ in vs], sym_and(ok, *[g for _, g in vs])


WRONG = {"int": ["1", 1.5, [], b"a", {}], "bool": ["True", [], {}], "float": ["1.0", [], {}], "str": [1, [], b"a", {}], "octet": ["a", 1, [], {}], "msg": [1, "", [], {}], "seq": [1, "ab", {}], "arr": [1, "ab", {}]}


def spec_of(t):
    if t in PRIMS:
        return PRIMS[t]
    if t.startswith("string<") and t.endswith(">") or t.startswith("wstring<") and t.endswith(">"):
        return ("str", int(t[t.index("<") + 1:-1]))
    if t.startswith("sequence<"):
        inner = t[9:-1]
        if ", " in inner:
            e, n = inner.rsplit(", ", 1)
            return ("seq", spec_of(e), int(n))
        return ("seq", spec_of(inner), None)
    e, n = t[:-1].rsplit("[", 1)
    return ("arr", spec_of(e), int(n))


def typed(ctx, t):
    r = DT.get_message_field_io_type(t)
    ctx.check(r.is_ok(), "every type of a message field has a data type")
    c = r.unwrap()
    ctx.check(c.allow_dynamic, "values of message fields can be wired")
    take(ctx, c, t)


def take(ctx, c, t):
    spec = spec_of(t)
    if ctx.pick("kind", ["right", "wrong"]) == "right":
        v, good = value(ctx, "v", spec)
        r = c.set_value(v)
        ctx.check(r.is_ok() == good, "a value is accepted exactly if the message field takes it")
        if r.is_ok():
            ctx.check(same(cur(c), v), "an accepted value is stored unchanged")
            ctx.reach("accepted")
        else:
            ctx.reach("rejected")
    else:
        refuse(ctx, c, ctx.pick("wrong", WRONG[spec[0]]), "field")


def fields(ctx):
    """A message type has exactly the fields of the message, each with the type of the field."""
    k = ctx.pick("field", [k for k, t in vmsg.Kinds.get_fields_and_field_types().items() if t not in ("octet", "octet[2]")])
    c = RosMessageType(vmsg.Kinds)
    r = c.get_element_fields()
    ctx.check(r.is_ok(), "the fields of a message type can be listed")
    fs = r.unwrap()
    ctx.check(list(fs) == list(vmsg.Kinds.get_fields_and_field_types()), "a message type has exactly the fields of the message")
    ctx.check(fs[k].set_value(getattr(vmsg.Kinds(), k)).is_ok(), "the field of a new message is accepted")
    take(ctx, c.get_element_fields().unwrap()[k], vmsg.Kinds.get_fields_and_field_types()[k])


BAD = ["", "foo", "integer", "int", "int24", "floaty", "long double", "sequence<foo>", "foo[3]", "stringy", "strings", "wstrings", "sequence<stringy>", "int8x", "string<3", "string<x>", "int8[3]x", "sequence<int8>x"]


def unknown(ctx):
    """Whatever isn't the type of a field is an error, not an exception or another type."""
    t = ctx.pick("type", BAD)
    ctx.check(DT.get_message_field_io_type(t).is_err(), "unknown types are reported as an error")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    ts = list(PRIMS)
    for e in ("int32", "uint8", "boolean", "double", "string", "string<3>", "vf_msgs/Flat", "string_msgs/Label", "octet"):
        ts += ["sequence<%s>" % e, "sequence<%s, 2>" % e, "%s[2]" % e]
    if t:
        ts += ["sequence<%s, %d>" % (e, n) for e in ("int8", "uint64", "wstring", "wstring_msgs/Label") for n in (0, 1, 3)] + ["%s[%d]" % (e, n) for e in ("int16", "wstring<1>", "float") for n in (0, 1, 3)]
    for x in ts:
        sp = spec_of(x)
        never = {"bool": 1, "str": sp[0] == "str" and sp[1] is None}.get(sp[0]) or x in ("sequence<boolean>", "sequence<string>", "double", "sequence<double>")
        hs.append(H("type/" + x.replace("/", "."), typed, dict(t=x), "any value of the field's kind (text up to one more than allowed, lists likewise) and values of other kinds", reach=("accepted", "refused") + (() if never else ("rejected",)), real_floats=True))
    hs.append(H("fields", fields, {}, "a message with %d fields of all kinds" % len(vmsg.Kinds.get_fields_and_field_types()), reach=("accepted", "rejected", "refused"), real_floats=True))
    hs.append(H("unknown", unknown, {}, "%d texts" % len(BAD), reach=("done",)))
    return hs
