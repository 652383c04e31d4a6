"""Data containers enforce their constraints and isolate their value."""
import copy
from harness.data import *

STEPS = 2


def ints(ctx, steps):
    lo, hi = ctx.int("min", -(2 ** 63), 2 ** 64 - 1), ctx.int("max", -(2 ** 63), 2 ** 64 - 1)
    given = ctx.pick("given", ["both", "min", "max"])
    kw = {}
    if given != "max":
        kw["min_value"] = lo
    else:
        lo = -(2 ** 63)
    if given != "min":
        kw["max_value"] = hi
    else:
        hi = 2 ** 64 - 1
    if lo > hi:
        ctx.check(rejected(lambda: Ok(IntType(**kw))), "a minimum above the maximum is refused")
        ctx.reach("empty")
        return
    c = IntType(is_static=False, **kw)
    for k in range(steps):
        v = ctx.int("v%d" % k, -(2 ** 70), 2 ** 70)
        offer(ctx, c, v, sym_and(lo <= v, v <= hi), "integer")
    refuse(ctx, c, ctx.pick("wrong", ["x", [], {}, b"1", 1.5]), "integer")


def int_default(ctx):
    lo, hi = ctx.int("min", -1000, 1000), ctx.int("max", -1000, 1000)
    ctx.assume(lo <= hi)
    c = IntType(min_value=lo, max_value=hi)
    v = cur(c)
    ctx.check(sym_and(lo <= v, v <= hi), "the default of a static integer lies within its limits")
    ctx.reach("done")


def float_default(ctx):
    lo, hi = ctx.float("min"), ctx.float("max")
    ctx.assume(sym_and(lo <= hi, lo >= -1e9, hi <= 1e9))
    c = FloatType(min_value=lo, max_value=hi)
    v = cur(c)
    ctx.check(sym_and(lo <= v, v <= hi), "the default of a static number lies within its limits")
    ctx.reach("done")


def floats(ctx, steps):
    lo, hi = ctx.float("min"), ctx.float("max")
    ctx.assume(sym_and(lo <= hi, lo >= -1e300, hi <= 1e300))
    c = FloatType(min_value=lo, max_value=hi, is_static=False)
    for k in range(steps):
        if ctx.pick("kind%d" % k, ["float", "int"]) == "float":
            v = ctx.float("v%d" % k)
            offer(ctx, c, v, sym_and(lo <= v, v <= hi), "number")
        else:
            v = ctx.pick("i%d" % k, [-3, 0, 1, 7, 2 ** 53, 2 ** 70])
            offer(ctx, c, v, sym_and(lo <= v, v <= hi), "number")
            if c.has_value():
                ctx.check(isinstance(cur(c), float), "an integer given to a number input is stored as a number")
    refuse(ctx, c, ctx.pick("wrong", ["x", [], {}]), "number")


def strings(ctx, steps, kind):
    kw = {}
    maxl = ctx.int("max", 0, 5)
    opts = None
    if ctx.bool("limited"):
        kw["max_length"] = maxl
    else:
        maxl = 10 ** 9
    if ctx.bool("options"):
        opts = [ctx.str("opt%d" % i, 3) for i in range(2)]
        kw["valid_values"] = opts
    c = kind(is_static=False, **kw)
    for k in range(steps):
        v = ctx.str("v%d" % k, 6)
        good = len(v) <= maxl
        if opts is not None:
            good = sym_and(good, sym_or(*[v == o for o in opts]))
        offer(ctx, c, v, good, "text")
    refuse(ctx, c, ctx.pick("wrong", [1, 1.5, [], {}, b"a"]), "text")


def paths(ctx):
    c = PathType(is_static=False, max_length=ctx.int("max", 0, 20))
    v = ctx.str("v", 12)
    if ctx.bool("prefixed"):
        v = ctx.pick("prefix", ["file://", "package://"]) + v
    good = sym_and(len(v) <= c.max_length, sym_or(v.startswith("file://"), v.startswith("package://")))
    offer(ctx, c, v, good, "path")


def bytes_(ctx):
    kw = {} if not ctx.bool("limited") else {"max_length": ctx.int("max", 0, 4)}
    c = BytesType(is_static=False, **kw)
    v = ctx.pick("v", [b"", b"a", b"ab", b"abc", b"\x00\xff"])
    offer(ctx, c, v, len(v) <= kw.get("max_length", 1), "bytes")
    refuse(ctx, c, ctx.pick("wrong", [1, "a", [], {}]), "bytes")


def bools(ctx):
    c = BoolType(is_static=False)
    for k in range(2):
        offer(ctx, c, ctx.bool("v%d" % k), True, "bool")
    refuse(ctx, c, ctx.pick("wrong", [2, "a", [], {}, 1.5]), "bool")


def lists(ctx, sizes):
    lo, hi, n = ctx.int("min", -5, 5), ctx.int("max", -5, 5), ctx.int("len", 0, 3)
    ctx.assume(lo <= hi)
    strict = ctx.bool("strict")
    c = ListType(element_type=IntType(min_value=lo, max_value=hi), max_length=n, strict_length=strict, is_static=False)
    for k, maxn in enumerate(sizes):
        v = [ctx.int("v%d_%d" % (k, i), -9, 9) for i in range(ctx.pick("n%d" % k, list(range(maxn + 1))))]
        good = sym_and(len(v) <= n, sym_or(sym_not(strict), len(v) == n), *[sym_and(lo <= x, x <= hi) for x in v])
        mine = list(v)
        if offer(ctx, c, v, good, "list"):
            v.append(77)
            ctx.check(same(cur(c), mine), "changing a list after it was assigned does not change the stored value")
            got = cur(c)
            got.append(78)
            ctx.check(same(cur(c), mine), "changing a list that was read does not change the stored value")
    refuse(ctx, c, ctx.pick("wrong", [1, "", {}, ["x"]]), "list")


def nested(ctx):
    n0, n1 = ctx.int("len0", 0, 2), ctx.int("len1", 0, 2)
    hi = ctx.int("max", 0, 4)
    inner = ctx.pick("inner", ["list", "dict"])
    el = ListType(element_type=IntType(min_value=0, max_value=hi), max_length=n1) if inner == "list" else \
        DictType(element_type=IntType(min_value=0, max_value=hi), max_length=n1)
    outer = ctx.pick("outer", ["list", "dict"])
    c = (ListType if outer == "list" else DictType)(element_type=el, max_length=n0, is_static=False)
    shape = ctx.pick("shape", [(), (0,), (1,), (2,), (1, 1), (0, 2), (1, 1, 1)])
    items, good = [], [len(shape) <= n0]
    for i, m in enumerate(shape):
        xs = [ctx.int("x%d_%d" % (i, j), -1, 6) for j in range(m)]
        good.append(m <= n1)
        good += [sym_and(0 <= x, x <= hi) for x in xs]
        items.append(xs if inner == "list" else {"k%d" % j: x for j, x in enumerate(xs)})
    v = items if outer == "list" else {"a%d" % i: x for i, x in enumerate(items)}
    if offer(ctx, c, v, sym_and(*good), "nested value"):
        mine = copy.deepcopy(cur(c))
        if items:
            if inner == "list":
                items[0].append(5)
            else:
                items[0]["z"] = 5
            ctx.check(same(cur(c), mine), "changing a nested value after it was assigned does not change the stored value")
            for read in (lambda: cur(c), lambda: c.get_value_as(type(v)).unwrap(), lambda: NodeInputMap("inputs", {"k": c}).get_value("k").unwrap()):
                before = copy.deepcopy(cur(c))
                x = read()
                x = x[0] if outer == "list" else x["a0"]
                if inner == "list":
                    x.append(6)
                else:
                    x["y"] = 6
                ctx.check(same(cur(c), before), "changing a nested value that was read does not change the stored value")
            ctx.reach("isolated")


def dicts(ctx, steps):
    n = ctx.int("len", 0, 2)
    ml = ctx.int("max", 0, 3)
    strict = ctx.bool("strict")
    c = DictType(element_type=StringType(max_length=ml), max_length=n, strict_length=strict, is_static=False)
    for k in range(steps):
        keys = ctx.pick("keys%d" % k, [[], ["a"], ["a", "b"], ["a", "b", "c"]])
        v = {key: ctx.str("v%d_%s" % (k, key), 4) for key in keys}
        good = sym_and(len(v) <= n, sym_or(sym_not(strict), len(v) == n), *[len(x) <= ml for x in v.values()])
        mine = dict(v)
        if offer(ctx, c, v, good, "dict"):
            v["new"] = "x"
            ctx.check(same(cur(c), mine), "changing a dict after it was assigned does not change the stored value")
            cur(c)["other"] = "y"
            ctx.check(same(cur(c), mine), "changing a dict that was read does not change the stored value")
    refuse(ctx, c, ctx.pick("wrong", [1, "", [], {"a": 5}]), "dict")


def dict_keys(ctx):
    c = DictType(element_type=IntType(), is_static=False)
    v = ctx.int("v", -9, 9)
    ok(ctx, c.set_value({1: v, "b": v}), "a dict with non-text keys")
    ctx.check(same(cur(c), {"1": v, "b": v}), "dict keys are turned into text")
    ctx.reach("done")


ALLT = [bool, int, float, str, bytes, list, dict, object]


def generic(ctx):
    valid = ctx.pick("valid", [ALLT, [int], [int, str], [str, list, bool], [float, dict, int], [object, str]])
    c = GenericType(valid_types=valid)
    t = ctx.pick("type", ALLT)
    import copy
    v = copy.deepcopy(GENERIC_TYPE_MAP[t])
    good = t in valid
    if t in (list, dict):
        e = ctx.pick("element", [bool, int, str])
        v["element_type"] = copy.deepcopy(GENERIC_TYPE_MAP[e])
        good = good and e in valid
    offer(ctx, c, v, good, "type")
    how = ctx.pick("broken", ["none", "extra", "missing", "identifier"])
    w = copy.deepcopy(v)
    if how == "extra":
        w["foo"] = 1
    elif how == "missing":
        if len(w) < 2:
            return
        w.pop([k for k in w if k != "type_identifier"][0])
    elif how == "identifier":
        w.pop("type_identifier")
    else:
        return
    offer(ctx, c, w, False, "malformed type")


def ros_types(ctx):
    kind = ctx.pick("container", [RosTopicType, RosServiceType, RosActionType, RosComponentType])
    val_ = ctx.pick("value", [vmsg.Flat, vmsg.Nested, vsrv.Ask, vact.Mix, vsrv.Ask.Request, vact.Mix.Goal, int, str, list])
    good = {RosTopicType: (vmsg.Flat, vmsg.Nested, vsrv.Ask.Request, vact.Mix.Goal), RosServiceType: (vsrv.Ask,), RosActionType: (vact.Mix,),
            RosComponentType: (vmsg.Flat, vmsg.Nested, vsrv.Ask.Request, vact.Mix.Goal)}[kind]
    c = kind()
    before = copy.deepcopy(cur(c))
    r = c.set_value(val_)
    ctx.check(r.is_ok() == (val_ in good), "an interface type input accepts exactly interfaces of its kind")
    ctx.check(cur(c) is (val_ if val_ in good else before), "a rejected interface type leaves the previous one")
    ctx.reach("accepted" if r.is_ok() else "rejected")


def ros_values(ctx):
    c = RosMessageType(message_type=vmsg.Flat, is_static=False)
    how = ctx.pick("value", ["flat", "other", "int", "class"])
    if how == "flat":
        m = vmsg.Flat()
        m.i = ctx.int("i", -5, 5)
        i = m.i
        offer(ctx, c, m, True, "message")
        m.i = 99
        ctx.check(cur(c).i == i, "changing a message after it was assigned does not change the stored value")
        cur(c).i = 98
        ctx.check(cur(c).i == i, "changing a message that was read does not change the stored value")
    else:
        offer(ctx, c, {"other": vmsg.Nested(), "int": 3, "class": vmsg.Flat}[how], False, "message")
    name = ctx.pick("name", [RosTopicName, RosServiceName, RosActionName])(is_static=False)
    offer(ctx, name, ctx.str("topic", 6), True, "name")
    refuse(ctx, name, ctx.pick("wrong", [1, [], b"a"]), "name")


def references(ctx):
    import copy
    kind = ctx.pick("kind", [ReferenceType, ReferenceListType, ReferenceDictType])
    t = ctx.pick("type", [int, str, float, bool])
    target = GenericType(valid_types=[int, str, float, bool])
    ok(ctx, target.set_value(copy.deepcopy(GENERIC_TYPE_MAP[t])), "a valid type")
    c = kind(reference="t", allow_static=False)
    ok(ctx, c.set_type_map({"t": target, "c": c}), "a reference to a type input")
    vals = {int: ctx.int("i", -5, 5) if t is not float else 3, str: ctx.str("s", 3), float: 1.5, bool: ctx.bool("b")}
    u = ctx.pick("offered", [int, str, float, bool])
    v = vals[u]
    if kind is ReferenceListType:
        v = [v]
    elif kind is ReferenceDictType:
        v = {"k": v}
    good = u is t or (u is int and t is float)
    if u is bool and t in (int, float):
        return          # bool is a kind of int in Python
    if good:
        offer(ctx, c, v, True, "reference")
    else:
        refuse(ctx, c, v, "reference")


def static(ctx):
    """Once the node is set up a static input cannot be changed any more."""
    kind = ctx.pick("kind", ["int", "str", "list"])
    c = {"int": IntType(), "str": StringType(), "list": ListType(element_type=IntType())}[kind]
    mk = {"int": lambda n: ctx.int(n, -9, 9), "str": lambda n: ctx.str(n, 3), "list": lambda n: [ctx.int(n, -9, 9)]}[kind]
    a = mk("a")
    ok(ctx, c.set_value(a), "a static input without value accepts one")
    c.reset_value()
    ctx.check(same(cur(c), a), "resetting keeps static values")
    c.flag_updated()
    ctx.check(c.set_value(mk("b")).is_err(), "a static input that was assigned is not overwritten")
    ctx.check(same(cur(c), a), "a static input keeps its value")
    d = {"int": IntType(is_static=False), "str": StringType(is_static=False), "list": ListType(element_type=IntType(), is_static=False)}[kind]
    ok(ctx, d.set_value(a), "a dynamic input accepts a value")
    d.flag_updated()
    b = mk("c")
    offer(ctx, d, b, True, "dynamic")
    d.reset_value()
    ctx.check(sym_and(sym_not(d.has_value()), d.get_value().is_err()), "resetting clears dynamic values")
    ctx.reach("done")


def typed(ctx):
    c = ctx.pick("c", [IntType(is_static=False), StringType(is_static=False), ListType(element_type=IntType(), is_static=False)])
    v = ctx.int("v", -5, 5) if isinstance(c, IntType) else ctx.str("s", 3) if isinstance(c, StringType) else [ctx.int("v", -5, 5)]
    ok(ctx, c.set_value(v), "a valid value")
    t = ctx.pick("t", [int, str, list, dict, float])
    r = c.get_value_as(t)
    ctx.check(r.is_ok() == isinstance(v, t), "reading a value as a type succeeds exactly if it has that type")
    if r.is_ok():
        ctx.check(sym_deep_eq(r.unwrap(), v), "reading a value as its type yields the value")
    m = NodeInputMap("m", {"k": c})
    ctx.check(sym_deep_eq(ok(ctx, m.get_value("k"), "reading an input"), v), "an input map yields the value")
    ctx.check(m.get_value_as("k", t).is_ok() == isinstance(v, t), "an input map checks the requested type")
    ctx.check(m.get_value("q").is_err(), "an unknown input is an error")
    ctx.check(m.get_value_as("q", int).is_err(), "an unknown input is an error")
    o = NodeOutputMap("o", {"k": c})
    ctx.check(o.set_value("q", v).is_err(), "an unknown output is an error")
    ctx.check(o.set_value("k", v).is_ok(), "a valid output value is accepted")
    ctx.reach("done")


def outlimits(ctx):
    c = IntType(min_value=0, max_value=5)
    o = NodeOutputMap("o", {"k": c, "j": IntType(min_value=0, max_value=5)})
    NodeConfig(inputs={}, outputs=o.data, max_children=0)
    a, b = ctx.int("a", -3, 9), ctx.int("b", -3, 9)
    r = o.set_multiple_values(k=a, j=b)
    ctx.check(r.is_ok() == sym_and(0 <= a, a <= 5, 0 <= b, b <= 5), "several outputs are accepted exactly if each is valid")
    if r.is_ok():
        ctx.check(sym_and(cur(o.data["k"]) == a, cur(o.data["j"]) == b), "accepted outputs are stored")
        ctx.reach("accepted")
    else:
        ctx.reach("rejected")


def harnesses(tier):
    t = tier == "thorough"
    k = 3 if t else 2
    ar = ("accepted", "rejected")
    return [
        H("int", ints, dict(steps=k), "%d assignments, limits symbolic over the 64-bit ranges, values |v|<=2^70, wrong types" % k, reach=ar + ("empty", "refused")),
        H("int-default", int_default, {}, "limits symbolic +-1000", reach=("done",)),
        H("float-default", float_default, {}, "limits symbolic doubles", reach=("done",)),
        H("float", floats, dict(steps=k), "%d assignments, limits and values symbolic doubles (including infinities and NaN), ints" % k, reach=ar + ("refused",)),
        H("string", strings, dict(steps=k, kind=StringType), "%d assignments, text <=6, limit 0..5, 2 options <=3" % k, reach=ar + ("refused",)),
        H("path", paths, {}, "text <=12 with and without prefix", reach=ar),
        H("bytes", bytes_, {}, "5 values, limit 0..4", reach=ar + ("refused",)),
        H("bool", bools, {}, "2 assignments", reach=("accepted", "refused")),
        H("list", lists, dict(sizes=(2, 3) if t else (1, 2)), "2 assignments, <=%d elements, symbolic element limits, length limit 0..3" % (3 if t else 2), reach=ar + ("refused",)),
        H("dict", dicts, dict(steps=1 if not t else 2), "<=3 keys, symbolic text values <=4", reach=ar + ("refused",)),
        H("dict-keys", dict_keys, {}, "one int key", reach=("done",)),
        H("nested", nested, {}, "lists/dicts of lists/dicts, <=3x2", reach=ar + ("isolated",)),
        H("generic", generic, {}, "6 sets of valid types, all type values, 1 nesting level, 3 malformations", reach=ar),
        H("ros-types", ros_types, {}, "4 containers x 9 classes", reach=ar),
        H("ros-values", ros_values, {}, "messages and names", reach=ar + ("refused",)),
        H("references", references, {}, "3 reference kinds x 4 types x 4 values", reach=("accepted", "refused")),
        H("static", static, {}, "3 types, symbolic values", reach=("done",)),
        H("typed", typed, {}, "3 containers x 5 types", reach=("done",)),
        H("multiple", outlimits, {}, "2 outputs", reach=ar),
    ]
