"""Nodes that read, change and iterate lists, dicts and messages."""
import copy

from harness.nodes import *
from ros_bt_py.nodes.getters import GetListItem, GetDictItem, GetMultipleDictItems, GetAttr
from ros_bt_py.nodes.setters import AppendListItem, SetAttr, SetDictItem
from ros_bt_py.nodes.list import ListLength, InsertInList, IsInList, IterateList
from vf_msgs.msg import Two, Nested, Flat

ASSUMPTIONS = ["messages don't check the types of their fields, except where a harness does"]
LOW, HIGH = -(1 << 63), (1 << 63) - 1


def ilist(ctx, name, lens):
    return [ctx.int("%s.%d" % (name, k), LOW, HIGH) for k in range(ctx.pick(name + ".len", lens))]


def idict(ctx, name, keysets):
    return {k: ctx.int("%s.%s" % (name, k), LOW, HIGH) for k in ctx.pick(name + ".keys", keysets)}


def two(ctx, name):
    return Two(i=ctx.int(name + ".i", -99, 99), s=ctx.pick(name + ".s", ("p", "q")))


GET = {
    GetListItem: dict(types={"list_type": int}, out="item", c="list", k="index", cv=lambda c, n: ilist(c, n, (0, 2)), kv=lambda c, n: c.int(n, 0, 2)),
    GetDictItem: dict(types={"value_type": int}, out="value", c="dict", k="key", cv=lambda c, n: idict(c, n, ((), ("k",), ("k", "j"))), kv=lambda c, n: c.pick(n, ("k", "j"))),
    GetMultipleDictItems: dict(types={"value_type": int}, out="values", c="dict", k="keys", cv=lambda c, n: idict(c, n, (("j",), ("k", "j"))), kv=lambda c, n: list(c.pick(n, ((), ("j", "k", "j"))))),
    GetAttr: dict(types={"object_type": Two, "attr_type": int}, out="attr", c="object", k="attr_name", cv=lambda c, n: two(c, n), kv=lambda c, n: c.pick(n, ("i", "x", "i.y"))),
}


def lookup(cls, c, k):
    """(found, value)"""
    if cls is GetListItem:
        for i in range(len(c)):
            if i == k:
                return True, c[i]
        return False, None
    if cls is GetDictItem:
        return k in c, c.get(k)
    if cls is GetMultipleDictItems:
        return all(x in c for x in k), [c.get(x) for x in k]
    return k == "i", c.i


def getter(ctx, cls, steps, child, ticks=RSF):
    """The output is the item; a missing item fails; without new inputs the node waits unless it may reuse old ones."""
    g = GET[cls]
    stale = ctx.pick("stale", (True, False))
    n = make(ctx, cls, g["types"], static={"succeed_on_stale_data": stale})
    log = []
    if child:
        probes(ctx, n, 1, log, ticks=ticks)
    started(ctx, n)
    c, k = g["cv"](ctx, "c"), g["kv"](ctx, "k")
    put(ctx, n, g["c"], c)
    put(ctx, n, g["k"], k)
    new = True
    for i in range(steps):
        op = ctx.pick("op%d" % i, ("tick", "c", "k")) if i else "tick"
        if op == "c":
            v = g["cv"](ctx, "c%d" % i)
            if not sym_deep_eq(c, v):
                new = True
            c = v
            put(ctx, n, g["c"], v)
        if op == "k":
            v = g["kv"](ctx, "k%d" % i)
            if not sym_deep_eq(k, v):
                new = True
            k = v
            put(ctx, n, g["k"], v)
        before = out(n, g["out"])
        log.clear()
        r = tick(ctx, n)
        res = SU
        if child:
            got = ticks_of(log)
            ctx.check(len(got) == 1, "the child is ticked first")
            res = got[0][1]
            if res == ERR:
                ctx.check(r == ERR, "an error of the child is an error")
                ctx.reach("child")
                return
        if res != SU:
            ctx.check(r == res, "the child's result is passed on unless it succeeds")
            ctx.check(sym_deep_eq(out(n, g["out"]), before), "nothing is output before the child succeeds")
            ctx.reach("child")
        else:
            found, want = lookup(cls, c, k)
            if not found:
                ctx.check(r == F, "a missing item fails")
                ctx.check(sym_deep_eq(out(n, g["out"]), before), "a missing item isn't output")
                ctx.reach("missing")
            elif new or stale:
                ctx.check(r == SU, "an item that exists is found")
                ctx.check(sym_deep_eq(out(n, g["out"]), want), "the output is the item")
                ctx.reach("found")
            else:
                ctx.check(r == R, "without new data the node waits")
                ctx.reach("waiting")
        new = False
        ctx.check(sym_deep_eq(n.node_config.inputs[g["c"]].get_value().unwrap(), c), "reading an item doesn't change the container")


def wrongtype(ctx):
    """An attribute of another type than declared is reported and not output."""
    t, attr, bad = ctx.pick("case", ((int, "s", True), (str, "i", True), (str, "s", False), (int, "i", False)))
    n = started(ctx, make(ctx, GetAttr, {"object_type": Two, "attr_type": t}, static={"succeed_on_stale_data": True}))
    put(ctx, n, "object", Two(i=ctx.int("i", -9, 9), s="p"))
    put(ctx, n, "attr_name", attr)
    before = out(n, "attr")
    r = tick(ctx, n)
    ctx.check(sym_or(r == F, r == ERR) if bad else r == SU, "only attributes of the declared type are output")
    if bad:
        ctx.check(out(n, "attr") == before, "an attribute of another type isn't output")
    ctx.reach("bad" if bad else "good")


def nested(ctx):
    """Nested attributes are read and written by their path."""
    o = Nested()
    path, set_path = ctx.pick("case", (("inner.i", True), ("inner.nope", False), ("nope.i", False), ("inner.i.x", False)))
    o.inner.i = ctx.int("i", -9, 9)
    v = ctx.int("v", -9, 9)
    g = started(ctx, make(ctx, GetAttr, {"object_type": Nested, "attr_type": int}, static={"succeed_on_stale_data": True}))
    put(ctx, g, "object", o)
    put(ctx, g, "attr_name", path)
    r = tick(ctx, g)
    ctx.check(r == (SU if set_path else F), "a nested attribute is found exactly if it exists")
    s = started(ctx, make(ctx, SetAttr, {"object_type": Nested, "attr_type": int}, node_id=2))
    put(ctx, s, "object", o)
    put(ctx, s, "attr_name", path)
    put(ctx, s, "attr_value", v)
    r2 = tick(ctx, s)
    if set_path:
        ctx.check(out(g, "attr") == o.inner.i, "the output is the nested attribute")
        ctx.check(r2 == SU, "an existing attribute can be set")
        ctx.check(out(s, "new_object").inner.i == v, "the nested attribute is replaced")
        ctx.check(s.node_config.inputs["object"].get_value().unwrap().inner.i == o.inner.i, "the input isn't changed")
        ctx.reach("set")
    else:
        ctx.check(sym_or(r2 == F, r2 == ERR), "an attribute that doesn't exist can't be set")
        ctx.reach("missing")


def setattr_(ctx, steps):
    n = started(ctx, make(ctx, SetAttr, {"object_type": Two, "attr_type": int}))
    for i in range(steps):
        o, v = two(ctx, "o%d" % i), ctx.int("v%d" % i, -99, 99)
        a = ctx.pick("attr%d" % i, ("i", "nope"))
        put(ctx, n, "object", o)
        put(ctx, n, "attr_name", a)
        put(ctx, n, "attr_value", v)
        before = out(n, "new_object")
        r = tick(ctx, n)
        ctx.check(sym_deep_eq(n.node_config.inputs["object"].get_value().unwrap(), o), "the input isn't changed")
        if a == "i":
            w = out(n, "new_object")
            ctx.check(r == SU, "an existing attribute can be set")
            ctx.check(sym_and(w.i == v, w.s == o.s), "the output is the object with the attribute replaced")
            ctx.reach("set")
        else:
            ctx.check(sym_or(r == F, r == ERR), "an attribute that doesn't exist can't be set")
            ctx.check(sym_deep_eq(out(n, "new_object"), before), "nothing is output for an attribute that doesn't exist")
            ctx.reach("missing")
            return


def change(ctx, cls, steps):
    """Append, insert and set: the output is the changed copy, the input stays as it was."""
    types = {AppendListItem: {"list_type": int}, InsertInList: {"element_type": int}, SetDictItem: {"attr_type": int}}[cls]
    n = started(ctx, make(ctx, cls, types))
    for i in range(steps):
        v = ctx.int("v%d" % i, LOW, HIGH)
        if cls is SetDictItem:
            c, k = idict(ctx, "c%d" % i, ((), ("k",), ("j", "k"))), ctx.pick("k%d" % i, ("k", "z"))
            put(ctx, n, "object", c)
            put(ctx, n, "attr_name", k)
            put(ctx, n, "attr_value", v)
            want, key, o = dict(c, **{k: v}), "object", "new_object"
        else:
            c = ilist(ctx, "c%d" % i, (0, 2))
            put(ctx, n, "list", c)
            key = "list"
            if cls is AppendListItem:
                put(ctx, n, "value", v)
                want, o = c + [v], "new_list"
            else:
                at = ctx.int("at%d" % i, 0, 3 - i)
                put(ctx, n, "index", at)
                put(ctx, n, "element", v)
                o = "list"
                want = [v]
                for j in range(len(c)):
                    if j < at:
                        want.insert(j, c[j])
                    else:
                        want.append(c[j])
        r = tick(ctx, n)
        ctx.check(r == SU, "changing a copy succeeds")
        w = out(n, o)
        ctx.check(sym_deep_eq(w, want), "the output is the changed copy")
        ctx.check(sym_deep_eq(n.node_config.inputs[key].get_value().unwrap(), c), "the input isn't changed")
        r = tick(ctx, n)
        ctx.check(sym_and(r == SU, sym_deep_eq(out(n, o), want)), "a second tick with the same inputs has the same output")
        ctx.reach("done")


def question(ctx, cls, steps):
    n = started(ctx, make(ctx, cls, {"element_type" if cls is ListLength else "compare_type": int}))
    for i in range(steps):
        c = ilist(ctx, "c%d" % i, (0, 1, 2, 3))
        put(ctx, n, "list", c)
        if cls is ListLength:
            ctx.check(tick(ctx, n) == SU, "counting items succeeds")
            ctx.check(out(n, "length") == len(c), "the output is the number of items")
            ctx.reach("yes")
        else:
            v = ctx.int("v%d" % i, LOW, HIGH)
            put(ctx, n, "in", v)
            r = tick(ctx, n)
            ctx.check((r == SU) == sym_or(*[x == v for x in c]), "the node succeeds exactly if the value is in the list")
            ctx.check(sym_or(r == SU, r == F), "the node succeeds or fails")
            ctx.reach("yes" if r == SU else "no")


def iterate(ctx, steps, child, lens, ops, ticks=RSF):
    """The child is ticked for every item in order, each one only after the previous succeeded."""
    n = make(ctx, IterateList, {"item_type": int})
    log = []
    if child:
        probes(ctx, n, 1, log, ticks=ticks)
    started(ctx, n)
    li = ilist(ctx, "c", lens)
    put(ctx, n, "list", li)
    at, shown = 0, False
    failed = False
    for i in range(steps):
        op = "reset" if failed else ctx.pick("op%d" % i, ops) if i else "tick"
        failed = False
        if op == "reset":
            ok(ctx, n.reset(), "reset")
            at, shown = 0, False
        if op == "untick":
            ok(ctx, n.untick(), "untick")
        if op == "list":
            v = ilist(ctx, "c%d" % i, lens)
            if not sym_deep_eq(v, li):
                at, shown = 0, False
                ctx.reach("changed")
            li = v
            put(ctx, n, "list", li)
        log.clear()
        before = out(n, "list_item")
        r = tick(ctx, n)
        got = ticks_of(log)
        if not li:
            ctx.check(r == SU, "there is nothing to do for an empty list")
            ctx.check(not got, "the child isn't ticked for an empty list")
            ctx.reach("empty")
            continue
        if not child:
            ctx.check(out(n, "list_item") == li[at], "the output is the next item")
            at += 1
            ctx.check(r == (SU if at == len(li) else R), "the node succeeds with the last item")
            ctx.reach("all" if at == len(li) else "next")
            at %= len(li)
            continue
        ctx.check(len(got) <= 1, "the child is ticked at most once per tick")
        if got:
            ctx.check(shown, "the child isn't ticked in the tick that outputs a new item")
            ctx.check(sym_and(before == li[at], out(n, "list_item") == li[at]), "the child is ticked for the current item")
            res = got[0][1]
            if res == ERR:
                ctx.check(r == ERR, "an error of the child is an error")
                return
            if res == SU:
                at += 1
                shown = False
                ctx.check(r == (SU if at == len(li) else R), "the node succeeds once the child succeeded for all items")
                ctx.reach("all" if at == len(li) else "next")
                at %= len(li)
            elif res == F:
                ctx.check(r == F, "the node fails if the child fails")
                failed = True
                ctx.reach("failed")
            else:
                ctx.check(r == R, "the node runs while the child does")
                ctx.reach("running")
        else:
            ctx.check(not shown, "the child is ticked once its item was output")
            ctx.check(r == R, "the node runs until all items are done")
            ctx.check(out(n, "list_item") == li[at], "the output is the current item")
            shown = True
            ctx.reach("shown")


def harnesses(tier):
    t = tier == "thorough"
    k = 5 if t else 3
    hs = []
    for c in GET:
        hs.append(H(c.__name__, getter, dict(cls=c, steps=k, child=False), "%d times an operation and a tick" % k, reach=("found", "missing", "waiting"), max_paths=300000))
        hs.append(H(c.__name__ + "/child", getter, dict(cls=c, steps=3 if t else 2, child=True, ticks=ALL4), "%d times an operation and a tick, any results of a child" % (3 if t else 2), reach=("found", "missing", "child"), max_paths=300000))
    hs.append(H("wrongtype", wrongtype, {}, "", reach=("good", "bad")))
    hs.append(H("nested", nested, {}, "", reach=("set", "missing")))
    hs.append(H("SetAttr", setattr_, dict(steps=2), "2 ticks", reach=("set", "missing")))
    for c in (AppendListItem, InsertInList, SetDictItem):
        hs.append(H(c.__name__, change, dict(cls=c, steps=2), "2 times, up to 2 items", reach=("done",), max_paths=100000))
    hs.append(H("ListLength", question, dict(cls=ListLength, steps=2), "2 times, up to 3 items", reach=("yes",)))
    hs.append(H("IsInList", question, dict(cls=IsInList, steps=2), "2 times, up to 3 items", reach=("yes", "no")))
    j = 6 if t else 4
    for name, ops in (("changed", ("tick", "list")), ("interrupted", ("tick", "untick", "reset"))):
        hs.append(H("iterate/" + name, iterate, dict(steps=j, child=True, lens=(1, 2), ops=ops), "%d times an operation and a tick, up to 2 items" % j, reach=("shown", "next", "all", "running") + (("changed",) if name == "changed" else ()), max_paths=300000))
    if t:
        hs.append(H("iterate", iterate, dict(steps=5, child=True, lens=(1, 2), ops=("tick", "untick", "reset", "list")), "5 times an operation and a tick, up to 2 items", reach=("shown", "next", "all", "failed", "running", "changed"), max_paths=300000))
    hs.append(H("iterate/ticks", iterate, dict(steps=j + 4, child=True, lens=(0, 3), ops=("tick",), ticks=ALL4), "%d ticks, 3 items" % (j + 4), reach=("shown", "next", "all", "failed", "running", "empty"), max_paths=300000))
    hs.append(H("iterate/alone", iterate, dict(steps=j, child=False, lens=(0, 2), ops=("tick", "list", "reset")), "%d times an operation and a tick, up to 2 items" % j, reach=("next", "all", "empty", "changed"), max_paths=300000))
    return hs
