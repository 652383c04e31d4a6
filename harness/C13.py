"""Compatible types: whatever the source of a wiring may hold, its target accepts."""
import copy
from harness.data import *

VV = [None, ["a"], ["b", "a"], ["a", "bc", "b"], [""]]


def limits(ctx, tag, kind, small):
    """constraint record of one container"""
    d = {"kind": kind}
    if kind in ("int", "float"):
        if kind == "int":
            d["lo"], d["hi"] = (ctx.int(tag + ".lo", -9, 9), ctx.int(tag + ".hi", -9, 9)) if small else (ctx.int(tag + ".lo", -(2 ** 63), 2 ** 64 - 1), ctx.int(tag + ".hi", -(2 ** 63), 2 ** 64 - 1))
        else:
            d["lo"], d["hi"] = ctx.float(tag + ".lo"), ctx.float(tag + ".hi")
            ctx.assume(sym_and(d["lo"] >= -1e300, d["hi"] <= 1e300))
        ctx.assume(d["lo"] <= d["hi"])
    elif kind == "string":
        d["max"] = ctx.int(tag + ".max", 0, 4)
        d["valid"] = ctx.pick(tag + ".valid", VV)
    elif kind == "bytes":
        d["max"] = ctx.int(tag + ".max", 0, 3)
    elif kind in ("list", "dict"):
        d["len"], d["strict"] = ctx.int(tag + ".len", 0, 3), ctx.bool(tag + ".strict")
        d["el"] = limits(ctx, tag + ".el", ctx.pick(tag + ".elk", ["int", "string0"]) if small else "int", True)
    elif kind == "nest":
        d["kind"] = "list"
        d["len"], d["strict"] = ctx.int(tag + ".len", 0, 2), ctx.bool(tag + ".strict")
        d["el"] = limits(ctx, tag + ".el", ctx.pick(tag + ".elk", ["list", "dict"]), False)
    elif kind == "string0":
        d["kind"], d["valid"] = "string", None
        d["max"] = ctx.int(tag + ".max", 0, 2)
    elif kind == "msg":
        d["cls"] = ctx.pick(tag + ".cls", [vmsg.Flat, vmsg.Two])
    elif kind == "name":
        d["cls"] = ctx.pick(tag + ".cls", [RosTopicName, RosServiceName, RosActionName])
        d["id"] = ctx.pick(tag + ".id", [0, 1])
    return d


def build(d, static=False):
    kw = dict(is_static=static)
    k = d["kind"]
    if k == "bool":
        return BoolType(**kw)
    if k in ("int", "float"):
        return (IntType if k == "int" else FloatType)(min_value=d["lo"], max_value=d["hi"], **kw)
    if k == "string":
        return StringType(max_length=d["max"], valid_values=None if d["valid"] is None else list(d["valid"]), **kw)
    if k == "path":
        return PathType(**kw)
    if k == "bytes":
        return BytesType(max_length=d["max"], **kw)
    if k in ("list", "dict"):
        return (ListType if k == "list" else DictType)(element_type=build(d["el"]), max_length=d["len"], strict_length=d["strict"], **kw)
    if k == "msg":
        return RosMessageType(message_type=d["cls"], **kw)
    if k == "name":
        return d["cls"](interface_id=d["id"], **kw)
    raise KeyError(k)


def value(ctx, tag, d):
    """any value, within the constraints of d or not"""
    k = d["kind"]
    if k == "bool":
        return ctx.bool(tag)
    if k == "int":
        return ctx.int(tag, -(2 ** 63) - 1, 2 ** 64)
    if k == "float":
        return ctx.float(tag)
    if k == "string":
        return ctx.pick(tag, ["", "a", "b", "bc", "zzzz"]) if d["valid"] is not None else ctx.str(tag, 4)
    if k == "path":
        return "file://x"
    if k == "bytes":
        return ctx.pick(tag, [b"", b"a", b"ab", b"abc"])
    if k in ("list", "dict"):
        n = ctx.pick(tag + ".n", [0, 1, 2])
        xs = [value(ctx, "%s.%d" % (tag, i), d["el"]) for i in range(n)]
        return xs if k == "list" else {"k%d" % i: x for i, x in enumerate(xs)}
    if k == "msg":
        m = d["cls"]()
        m.i = ctx.int(tag + ".i", -5, 5)
        return m
    if k == "name":
        return ctx.str(tag, 3)
    raise KeyError(k)


def within(s, t):
    """every constraint of s is at least as narrow as that of t"""
    if s["kind"] != t["kind"]:
        return False
    k = s["kind"]
    if k in ("int", "float"):
        return sym_and(t["lo"] <= s["lo"], s["hi"] <= t["hi"])
    if k == "string":
        return sym_and(s["max"] <= t["max"], t["valid"] is None or s["valid"] is not None and set(s["valid"]) <= set(t["valid"]))
    if k == "bytes":
        return s["max"] <= t["max"]
    if k in ("list", "dict"):
        return sym_and(sym_or(sym_and(sym_not(t["strict"]), s["len"] <= t["len"]), sym_and(t["strict"], s["strict"], s["len"] == t["len"])), within(s["el"], t["el"]))
    if k == "msg":
        return s["cls"] is t["cls"]
    if k == "name":
        return s["cls"] is t["cls"] and s["id"] == t["id"]
    return True


def pair(ctx, kind):
    ds, dt = limits(ctx, "s", kind, True), limits(ctx, "t", kind, True)
    src, dst = build(ds), build(dt)
    both(ctx, src, dst, ds, dt)


def both(ctx, src, dst, ds, dt):
    rt, rs = dst.get_runtime_type(), src.get_runtime_type()
    comp = rt.is_compatible(rs)
    if within(ds, dt):
        ctx.check(comp, "a source that is at least as narrow as the target is compatible")
        ctx.reach("narrower")
    if comp:
        v = value(ctx, "v", ds)
        if src.set_value(v).is_ok():
            ctx.check(dst.set_value(v).is_ok(), "a target accepts every value of a compatible source")
            ctx.check(same(cur(dst), cur(src)), "a target holds what its source holds")
            ctx.reach("delivered")
    else:
        ctx.reach("incompatible")


MIXED = ["bool", "int", "float", "string", "path", "bytes", "list", "dict", "msg", "name"]
SIMPLE = {"bool": dict(kind="bool"), "int": dict(kind="int", lo=-5, hi=5), "float": dict(kind="float", lo=-5.0, hi=5.0), "string": dict(kind="string", max=5, valid=None),
          "path": dict(kind="path"), "bytes": dict(kind="bytes", max=5), "list": dict(kind="list", len=5, strict=False, el=dict(kind="int", lo=-5, hi=5)),
          "dict": dict(kind="dict", len=5, strict=False, el=dict(kind="int", lo=-5, hi=5)), "msg": dict(kind="msg", cls=vmsg.Flat), "name": dict(kind="name", cls=RosTopicName, id=0)}


def mixed(ctx):
    """Different kinds: compatible only if every value is acceptable."""
    a, b = ctx.pick("s", MIXED), ctx.pick("t", MIXED)
    both(ctx, build(SIMPLE[a]), build(SIMPLE[b]), SIMPLE[a], SIMPLE[b])


def static(ctx):
    """A static input is never the target of a wiring, whatever the type."""
    k = ctx.pick("k", MIXED)
    src, dst = build(SIMPLE[k]), build(SIMPLE[k], static=True)
    ctx.check(not dst.get_runtime_type().is_compatible(src.get_runtime_type()), "a static input is not compatible with a dynamic source")
    ctx.check(dst.get_runtime_type().is_compatible(build(SIMPLE[k], static=True).get_runtime_type()), "two static values of the same type are compatible")
    ctx.reach("done")


def refs(ctx):
    """References behave like the type they refer to."""
    shape = ctx.pick("shape", ["plain", "list", "dict"])

    def ref(tag):
        t = ctx.pick(tag + ".t", [int, str, bool])
        g = copy.deepcopy(GENERIC_TYPE_MAP[t])
        if t is int:
            g["min_value"], g["max_value"] = ctx.int(tag + ".lo", -9, 9), ctx.int(tag + ".hi", -9, 9)
            ctx.assume(g["min_value"] <= g["max_value"])
            d = dict(kind="int", lo=g["min_value"], hi=g["max_value"])
        elif t is str:
            g["max_length"] = ctx.int(tag + ".max", 0, 3)
            d = dict(kind="string", max=g["max_length"], valid=None)
        else:
            d = dict(kind="bool")
        target = GenericType()
        ok(ctx, target.set_value(g), "a valid type")
        cls = {"plain": ReferenceType, "list": ReferenceListType, "dict": ReferenceDictType}[shape]
        c = cls(reference="t", allow_static=False, is_static=False)
        ok(ctx, c.set_type_map({"t": target}), "a reference to a type input")
        return c, d if shape == "plain" else dict(kind=shape, len=99, strict=False, el=d)
    (src, ds), (dst, dt) = ref("s"), ref("t")
    if ctx.pick("direct", ["none", "src", "dst"]) == "src":
        src = build(ds) if shape == "plain" else src
    both(ctx, src, dst, ds, dt)


def rtmsg(ctx):
    """A reference to a message type input delivers and accepts messages of that type."""
    def ref(tag):
        cls = ctx.pick(tag, [vmsg.Flat, vmsg.Two])
        c = ReferenceType(reference="t", allow_static=False, is_static=False)
        ok(ctx, c.set_type_map({"t": RosTopicType(value=cls)}), "a reference to a message type input")
        return c, dict(kind="msg", cls=cls)
    (src, ds), (dst, dt) = ref("s"), ref("t")
    both(ctx, src, dst, ds, dt)


def harnesses(tier):
    out = [H(k, pair, dict(kind=k), "two containers with symbolic limits, every value of the source (symbolic)",
             reach=("narrower", "delivered") + (() if k in ("bool", "path") else ("incompatible",)), max_conc=400)
           for k in ["bool", "int", "float", "string", "path", "bytes", "list", "dict", "msg", "name"] + (["nest"] if tier == "thorough" else [])]
    out.append(H("mixed", mixed, {}, "all ordered pairs of 10 kinds", reach=("narrower", "delivered", "incompatible")))
    out.append(H("static", static, {}, "10 kinds", reach=("done",)))
    out.append(H("references", refs, {}, "references to 3 types with symbolic limits, plain/list/dict", reach=("narrower", "delivered", "incompatible")))
    out.append(H("message-references", rtmsg, {}, "references to 2 message types", reach=("narrower", "delivered", "incompatible")))
    return out
