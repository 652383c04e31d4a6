"""Update marks: a change is never lost, an unchanged value never announces one."""
from harness.data import *


def mk(ctx, kind):
    c = {"int": lambda: IntType(is_static=False), "str": lambda: StringType(is_static=False), "bool": lambda: BoolType(is_static=False),
         "float": lambda: FloatType(is_static=False), "list": lambda: ListType(element_type=IntType(), is_static=False),
         "dict": lambda: DictType(element_type=IntType(), is_static=False), "msg": lambda: RosMessageType(message_type=vmsg.Flat, is_static=False),
         "name": lambda: RosTopicName(is_static=False)}

    def ref(cls, t):
        import copy
        target = GenericType(valid_types=[int, str])
        target.set_value(copy.deepcopy(GENERIC_TYPE_MAP[t]))
        r = cls(reference="t", allow_static=False)
        ok(ctx, r.set_type_map({"t": target}), "a reference to a type input")
        return r
    c["ref"] = lambda: ref(ReferenceType, int)
    c["reflist"] = lambda: ref(ReferenceListType, int)
    return c[kind]()


def value(ctx, kind, n):
    if kind in ("int", "ref"):
        return ctx.int(n, -2, 2)
    if kind in ("str", "name"):
        return ctx.str(n, 2)
    if kind == "bool":
        return ctx.bool(n)
    if kind == "float":
        return ctx.float(n)
    if kind in ("list", "reflist"):
        return [ctx.int(n + ".%d" % i, 0, 1) for i in range(ctx.pick(n + ".n", [0, 1, 2]))]
    if kind == "dict":
        return {k: ctx.int(n + k, 0, 1) for k in ctx.pick(n + ".k", [[], ["a"], ["b"]])}
    m = vmsg.Flat()
    m.i = ctx.int(n, 0, 1)
    return m


def history(ctx, kind, steps):
    c = mk(ctx, kind)
    c.reset_value()
    c.reset_updated()
    ctx.check(sym_not(c.is_updated()), "a container without value is not marked updated")
    pending, prev = False, None
    for k in range(steps):
        op = ctx.pick("op%d" % k, ["set", "reset_updated", "flag", "reset_value", "bad"]) if k else "set"
        if op == "set":
            v = value(ctx, kind, "v%d" % k)
            if kind == "float":
                ctx.assume(sym_and(-1e300 <= v, v <= 1e300))
            ok(ctx, c.set_value(v), "a valid value")
            changed = True if prev is None else sym_not(sym_deep_eq(prev, v))
            pending = sym_or(pending, changed)
            prev = v
        elif op == "bad":
            bad = {"int": "x", "ref": "x", "str": 1, "name": 1, "bool": "x", "float": "x", "list": 3, "reflist": 3, "dict": 3, "msg": 3}[kind]
            ctx.check(rejected(lambda: c.set_value(bad)), "a value of the wrong type is refused")
        elif op == "reset_updated":
            c.reset_updated()
            pending = False
        elif op == "flag":
            c.flag_updated()
            pending = True
        else:
            c.reset_value()
            prev = None
        up = c.is_updated()
        ctx.check(sym_or(sym_not(pending), up), "a change stays marked until the mark is cleared")
        ctx.check(sym_or(pending, sym_not(up)), "nothing is marked updated without a change")
        ctx.check(c.has_value() == (prev is not None), "a container has a value exactly after one was assigned")
        r = c.get_value()
        ctx.check(r.is_ok() == (prev is not None), "an unset container yields no value")
        if r.is_ok():
            ctx.check(sym_deep_eq(r.unwrap(), prev), "a container yields the last accepted value")
    ctx.reach("updated" if pending else "clean")


def any_of(ctx, n):
    cs = {"k%d" % i: IntType(is_static=False) for i in range(n)}
    m = NodeInputMap("m", cs)
    up = []
    for i, c in enumerate(cs.values()):
        c.reset_updated()
        u = ctx.bool("u%d" % i)
        if u:
            c.flag_updated()
        up.append(u)
    keys = ctx.pick("keys", [[], ["k0"], ["k1"], ["k0", "k1"], ["k1", "k0"], ["k0", "k1", "k2"]])
    r = m.any_updated(*keys)
    ctx.check(val(r) == any(up[int(k[1])] for k in keys), "a group of inputs is updated exactly if one of them is")
    ctx.check(m.any_updated("k0", "nope").is_err(), "an unknown input is an error")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    out = []
    for kind in ("int", "str", "bool", "float", "list", "dict", "msg", "name", "ref", "reflist"):
        k = 5 if t else 4
        if kind in ("list", "dict", "reflist"):
            k -= 1
        out.append(H(kind, history, dict(kind=kind, steps=k), "%d operations out of 5, symbolic values" % k, reach=("updated", "clean")))
    out.append(H("any", any_of, dict(n=3), "3 inputs, all mark combinations", reach=("done",)))
    return out
