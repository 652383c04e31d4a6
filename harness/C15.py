"""Edits keep the tree well-formed and do what they say (C16 uses the same operations)."""
import copy

from harness.edit import *

# fixed shapes (kinds, parents): many siblings, long chain
SHAPES = {"wide": (("F", "F", "L", "F", "D", "L"), (-1, 0, 0, 0, 0, 3)), "deep": (("F", "D", "F", "F", "L", "F"), (-1, 0, 1, 2, 3, -1))}
SETS = [("F", "F", "D", "L"), ("D", "F", "F", "L"), ("F", "D", "L", "F")]


def start(ctx, sets, wires=True, opts={}):
    kinds = ctx.pick("kinds", sets)
    if isinstance(kinds[0], tuple):
        kinds, ps = kinds[0], list(kinds[1])
    else:
        ps = parents(ctx, kinds)
    ws = []
    if wires:
        ws = ctx.pick("wires", [[], WIRES[:4]])
    m = load(ctx, kinds, ps, [w for w in ws if max(w[0], w[2]) < len(kinds)], opts)
    return m, kinds, ps


def insert(lst, x, at):
    """list after inserting, Python convention: negative counts from the end"""
    lst = list(lst)
    if at < 0:
        at = max(0, len(lst) + 1 + at)
    lst.insert(at, x)
    return lst


class Edit:
    """One edit: before, response, after."""

    def __init__(self, ctx, m, mode):
        self.ctx, self.m, self.mode, self.before = ctx, m, mode, snap(m)

    def do(self, name, req, must=None, value=True):
        """must: True = has to succeed, False = has to be refused; value: the option value is one its input allows"""
        ctx, m = self.ctx, self.m
        r = self.reply = call(m, name, req)
        self.after = snap(m)
        if self.mode == "atomic":
            if not r.success:
                ctx.check(len(r.error_message) > 0, "a failed edit says why")
                ctx.check(same(self.after["nodes"], self.before["nodes"]), name + ": a failed edit leaves the nodes unchanged")
                ctx.check(self.after["wirings"] == self.before["wirings"] and self.after["name"] == self.before["name"], name + ": a failed edit leaves wirings and name unchanged")
                ctx.reach("failed")
            return False
        invariant(ctx, m, name)
        ctx.check(sym_implies(r.success, value), name + ": option values the input does not allow are refused")
        if must is not None:
            ctx.check(r.success == must, name + (": a valid edit succeeds" if must else ": an invalid edit is refused"))
        if r.success:
            ctx.reach("success")
        return r.success

    def keep(self, *but, what="edit"):
        """all other nodes are as before (links of the named ones may differ)"""
        b, a = self.before["nodes"], self.after["nodes"]
        for i in b:
            if i in but:
                continue
            self.ctx.check(i in a, what + ": no other node disappears")
            self.ctx.check(same({k: v for k, v in a[i].items() if k not in ("parent", "children")}, {k: v for k, v in b[i].items() if k not in ("parent", "children")}), what + ": other nodes are unchanged")

    def struct(self, want, what):
        """links: id -> (parent, [children])"""
        got = {i: (n["parent"], n["children"]) for i, n in self.after["nodes"].items()}
        self.ctx.check(got == want, what)

    def wirings(self, want, what):
        self.ctx.check(self.after["wirings"] == sorted(want), what)


def base(s):
    return {i: (n["parent"], list(n["children"])) for i, n in s["nodes"].items()}


def add(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets, wires=False)
    n = len(kinds)
    kind = ctx.pick("new", ["F", "D", "L", "Nope"])
    parent = ids(ctx, "parent", n)
    o = ctx.pick("o", ["", "3", "9", "5", "x"]) if kind == "L" else ""
    at = ctx.pick("at", [-1, 0, 1, 99, -2]) if num(parent) is not None else -1
    kid = ctx.pick("kids", [()] + [(i,) for i in range(n)] + [(0, 1), (77,), ("bad",)]) if kind in ("F", "D") and at == -1 else ()
    msg = nmsg(kind, None, name="new", inputs=[opt(o)] if o else [])
    msg.child_ids = [str(U(k)) if k != "bad" else "bad" for k in kid]
    plain = ctx.pick("service", ["add_node_at_index", "add_node"]) if at == -1 else "add_node_at_index"
    e = Edit(ctx, m, mode)
    pi = num(parent)
    valid = kind in CLS and o in ("", "3") and (pi is not None and ps.count(pi) < CAP[kinds[pi]] or parent == NIL)
    free = not kid or kid == (0,) or set(kid) <= {i for i in range(n) if ps[i] == -1}
    must = True if valid and not kid else False if not valid or not all(isinstance(k, int) and k < n for k in kid) or len(kid) > CAP.get(kind, 0) else None
    req = AddNode.Request(parent_node_id=parent, node=msg) if plain == "add_node" else AddNodeAtIndex.Request(parent_node_id=parent, node=msg, new_child_index=at)
    if not e.do(plain, req, must, o not in ("9", "x")):
        return
    new = [i for i in e.after["nodes"] if i not in e.before["nodes"]]
    ctx.check(len(new) == 1, "exactly one node is added")
    new = new[0]
    ctx.check(e.reply.node_id == new, "the response tells the id of the added node")
    nn = e.after["nodes"][new]
    ctx.check(nn["class"] == MOD + "." + CLS[kind].__name__ and nn["name"] == "new", "the added node has the requested class and name")
    ctx.check(nn["in"]["o"][2] == (3 if o == "3" else 0), "the added node has the requested options")
    want = base(e.before)
    ks = [str(U(k)) for k in kid]
    want[new] = (None if parent == NIL else parent, ks)
    for k in ks:
        if want[k][0] is not None:
            want[want[k][0]][1].remove(k)
        want[k] = (new, want[k][1])
        ctx.reach("children")
    if parent != NIL:
        want[parent] = (want[parent][0], insert(want[parent][1], new, at))
    e.struct(want, "the added node is a child of the parent at the requested position and has the requested children")
    e.keep(what="add")
    e.wirings(e.before["wirings"], "adding changes no wiring")


def remove(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets)
    node = ids(ctx, "node", len(kinds))
    rec = ctx.pick("children", [False, True])
    e = Edit(ctx, m, mode)
    if not e.do("remove_node", RemoveNode.Request(node_id=node, remove_children=rec), num(node) is not None):
        return
    gone = {node}
    if rec:
        for i in range(len(kinds)):
            if ps[i] >= 0 and str(U(ps[i])) in gone:
                gone.add(str(U(i)))
    ctx.check(set(e.after["nodes"]) == set(e.before["nodes"]) - gone, "exactly the requested nodes are removed")
    e.keep(*gone, what="remove")
    e.wirings([w for w in e.before["wirings"] if w[0] not in gone and w[2] not in gone], "exactly the wirings of removed nodes are removed")
    for i, n in e.after["nodes"].items():
        ctx.check([c for c in n["children"] if c in e.before["nodes"][i]["children"]] == [c for c in e.before["nodes"][i]["children"] if c not in gone], "remaining children keep their order")
        if e.before["nodes"][i]["parent"] not in gone:
            ctx.check(n["parent"] == e.before["nodes"][i]["parent"], "remaining nodes keep their remaining parent")


def move(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets, wires=False)
    n = len(kinds)
    node, parent = ids(ctx, "node", n), ids(ctx, "parent", n)
    pi, ni = num(parent), num(node)
    at = ctx.pick("at", [0, 1, -1, -2, 99] + ([2, 3, -3] if n > 5 else [])) if ni is not None and pi is not None else 0
    e = Edit(ctx, m, mode)
    if ni is None or pi is None and parent != NIL:
        must = False
    elif parent == NIL:
        must = True
    else:
        desc = {ni}
        for i in range(n):
            if ps[i] in desc:
                desc.add(i)
        room = ps.count(pi) < CAP[kinds[pi]]
        must = False if pi in desc else room if ps[ni] != pi else None if not room else True
    if not e.do("move_node", MoveNode.Request(node_id=node, parent_node_id=parent, new_child_index=at), must):
        return
    want = base(e.before)
    if want[node][0] is not None:
        want[want[node][0]][1].remove(node)
    want[node] = (None if parent == NIL else parent, want[node][1])
    if parent != NIL:
        if at < -len(want[parent][1]) - 1:
            return
        want[parent] = (want[parent][0], insert(want[parent][1], node, at))
    e.struct(want, "the moved node is a child of its new parent at the requested position, everything else is as before")
    e.keep(what="move")
    e.wirings(e.before["wirings"], "moving changes no wiring")


def replace(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets)
    n = len(kinds)
    old, new = ids(ctx, "old", n), ids(ctx, "new", n)
    oi, wi = num(old), num(new)
    e = Edit(ctx, m, mode)
    must = None
    if oi is None or wi is None:
        must = False
    elif oi != wi:
        anc, up = False, ps[oi]
        while up >= 0:
            anc, up = anc or up == wi, ps[up]
        room = ps.count(wi) + len([1 for i in range(n) if ps[i] == oi and i != wi]) <= CAP[kinds[wi]]
        must = None if anc or ps[wi] == oi and ps.count(oi) > CAP[kinds[wi]] else room
    if not e.do("replace_node", ReplaceNode.Request(old_node_id=old, new_node_id=new), must):
        return
    if oi == wi:
        e.struct(base(e.before), "replacing a node by itself changes nothing")
        return
    want = base(e.before)
    if want[new][0] is not None:
        want[want[new][0]][1].remove(new)
    kids = want[new][1] + want[old][1]
    par = want[old][0]
    for k in kids:
        want[k] = (new, want[k][1])
    want[new] = (par, kids)
    if par is not None:
        want[par][1][want[par][1].index(old)] = new
    del want[old]
    e.struct(want, "the replacement takes the position and the children of the replaced node, everything else is as before")
    e.keep(old, what="replace")
    e.wirings([w for w in e.before["wirings"] if old not in (w[0], w[2])], "replacing removes exactly the wirings of the replaced node")


def morph(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets)
    n = len(kinds)
    node = ids(ctx, "node", n)
    kind = ctx.pick("new", ["F", "D", "L", "O", "Nope"])
    o = ctx.pick("o", ["", "4", "5", "9"]) if kind in "FL" else ""
    msg = nmsg(kind, None, name="morphed", inputs=[opt(o)] if o else [])
    ni = num(node)
    e = Edit(ctx, m, mode)
    must = ni is not None and kind in CLS and o in ("", "4") and ps.count(ni) <= CAP[kind]
    if not e.do("morph_node", MorphNode.Request(node_id=node, new_node=msg), must, o != "9"):
        return
    nn = e.after["nodes"][node]
    ctx.check(nn["class"] == MOD + "." + CLS[kind].__name__ and nn["name"] == "morphed", "the morphed node has the requested class and name")
    ctx.check(nn["in"]["o"][2] == (4 if o == "4" else 0), "the morphed node has the requested options")
    e.struct(base(e.before), "the morphed node keeps its position and children")
    e.keep(node, what="morph")
    bad = [] if kind != "O" else [w for w in e.before["wirings"] if w[0] == node or w[2] == node]
    e.wirings([w for w in e.before["wirings"] if w not in bad], "morphing removes exactly the wirings the new node does not support")


def options(ctx, sets, mode):
    m, kinds, ps = start(ctx, sets, opts={i: 1 + i for i in range(3)})
    n = len(kinds)
    node = ids(ctx, "node", n)
    what = ctx.pick("o", ["none", "3", "9", "5", "x", "twice", "unknown", "type", "sym"])
    v = ctx.int("v", -2, 7) if what == "sym" else None
    ins = {"none": [], "unknown": [io("zz", IntType(is_static=True), "1")], "type": [io("o", StringType(is_static=True), '"a"')], "twice": [opt("2"), opt("4")]}.get(what)
    if what == "sym":
        c = IntType(allow_dynamic=False, is_static=True)
        ok(ctx, c.set_value(v), "value")
        ins = [opt(c.serialize_value())]
    elif ins is None:
        ins = [opt(what)]
    rename = ctx.pick("rename", [None, "fresh", ""])
    e = Edit(ctx, m, mode)
    good = what in ("none", "3", "twice") or what == "sym" and sym_and(0 <= v, v < 5)
    must = num(node) is not None and (True if good else False)
    if what == "twice":
        must = None
    if not e.do("set_options", SetOptions.Request(node_id=node, rename_node=rename is not None, new_name=rename or "", inputs=ins), must, what not in ("9", "x", "sym") or what == "sym" and sym_and(0 <= v, v <= 5)):
        return
    nn, old = e.after["nodes"][node], e.before["nodes"][node]
    want = {"none": old["in"]["o"][2], "3": 3, "twice": nn["in"]["o"][2], "sym": v}[what]
    ctx.check(nn["in"]["o"][2] == want, "options hold the requested values, others keep theirs")
    ctx.check(nn["name"] == (rename if rename else nn["name"] if rename == "" else old["name"]), "the node has the requested name")
    ctx.check(nn["class"] == old["class"], "setting options keeps the class")
    e.struct(base(e.before), "setting options keeps position and children")
    e.keep(node, what="set_options")
    e.wirings(e.before["wirings"], "setting options keeps wirings that are still valid")


PASS = "ros_bt_py.nodes.passthrough_node"


def retype(ctx, mode):
    """Options that change the type of inputs and outputs drop exactly the wirings that became invalid."""
    from ros_bt_py.nodes.passthrough_node import PassthroughNode
    m = manager()
    t = ctx.pick("t0", [int, str])

    def pn(i, t):
        node = PassthroughNode(node_id=U(i), name="n%d" % i)
        ok(ctx, node.node_config.inputs["passthrough_type"].set_value(GENERIC_TYPE_MAP[t]), "type")
        return node.to_structure_msg()
    tr = TreeStructure(name="tree", nodes=[nmsg("F", 9, children=(0, 1)), pn(0, t), pn(1, t)], data_wirings=[wire(0, "out", 1, "in"), wire(1, "out", 0, "in")] + ([wire(0, "out", 9, "p")] if t is int else []), tick_frequency_hz=10.0)
    ctx.check(m.load_tree(LoadTree.Request(tree=tr), LoadTree.Response()).success, "a valid tree can be loaded")
    to = ctx.pick("t1", [int, str, bool])
    g = GenericType()
    ok(ctx, g.set_value(GENERIC_TYPE_MAP[to]), "type")
    c = m.nodes[U(0)].node_config.inputs["passthrough_type"]
    e = Edit(ctx, m, mode)
    if not e.do("set_options", SetOptions.Request(node_id=str(U(0)), inputs=[NodeIO(key="passthrough_type", type=c.serialize_type(), serialized_value=g.serialize_value())]), True):
        ctx.reach("failed")
        return
    e.struct(base(e.before), "setting options keeps position and children")
    e.wirings(e.before["wirings"] if to is t else [], "setting options removes exactly the wirings that became invalid")
    if to is not t:
        ctx.reach("dropped")


def wiring(ctx, mode):
    kinds = ("F", "O", "L")
    m = load(ctx, kinds, [-1, 0, 0], [(0, "x", 2, "p"), (1, "y", 0, "p")])
    cand = [(0, "x", 2, "p"), (1, "y", 0, "p"), (2, "x", 1, "q"), (1, "x", 0, "p"), (0, "x", 2, "o"), (0, "x", 0, "p"), (0, "zz", 2, "p"), (0, "x", 2, "zz"), (77, "x", 2, "p"), (0, "x", 77, "p")]
    have = cand[:2]
    good = cand[:3] + [cand[5]]
    ws = [ctx.pick("w%d" % i, cand) for i in range(ctx.pick("n", [0, 1, 2]))]
    lax = ctx.pick("lax", [False, True])
    op = ctx.pick("op", ["wire_data", "unwire_data"])
    msgs = [wire(*w) for w in ws]
    if ctx.pick("bad", [False, True]) and msgs:
        msgs[0].source.node_id = "no-uuid"
        ws[0] = None
    e = Edit(ctx, m, mode)
    valid = [w for w in ws if w in (good if op == "wire_data" else have)]
    must = True if lax or len(valid) == len(ws) else False
    if op == "unwire_data" and len(set(valid)) < len(valid):
        must = None
    if not e.do(op, WireNodeData.Request(wirings=msgs, ignore_failure=lax), must):
        return
    keyed = [wkey(wire(*w)) for w in valid]
    if op == "wire_data":
        ctx.check(set(e.after["wirings"]) == set(e.before["wirings"]) | set(keyed), "exactly the valid wirings are added")
    else:
        e.wirings([w for w in e.before["wirings"] if w not in keyed], "exactly the requested wirings are removed")
    e.keep(what=op)
    e.struct(base(e.before), "wiring changes no structure")


def history(ctx, steps, mode):
    """Several edits in a row."""
    kinds = ("F", "D", "L")
    m = load(ctx, kinds, parents(ctx, kinds), [(0, "x", 1, "p"), (2, "x", 1, "p")])
    n = 3
    for s in range(steps):
        t = "s%d" % s
        op = ctx.pick(t + ".op", ["add", "remove", "move", "replace", "morph", "unwire"])
        e = Edit(ctx, m, mode)
        if op == "add":
            e.do("add_node_at_index", AddNodeAtIndex.Request(parent_node_id=ids(ctx, t + ".p", n, False), node=nmsg(ctx.pick(t + ".k", ["D", "L"]), None), new_child_index=0))
        elif op == "remove":
            e.do("remove_node", RemoveNode.Request(node_id=ids(ctx, t + ".n", n, False), remove_children=ctx.pick(t + ".r", [False, True])))
        elif op == "move":
            e.do("move_node", MoveNode.Request(node_id=ids(ctx, t + ".n", n, False), parent_node_id=ids(ctx, t + ".p", n, False), new_child_index=-1))
        elif op == "replace":
            e.do("replace_node", ReplaceNode.Request(old_node_id=ids(ctx, t + ".n", n, False), new_node_id=ids(ctx, t + ".p", n, False)))
        elif op == "morph":
            e.do("morph_node", MorphNode.Request(node_id=ids(ctx, t + ".n", n, False), new_node=nmsg(ctx.pick(t + ".k", ["F", "L"]), None)))
        else:
            e.do("unwire_data", WireNodeData.Request(wirings=list(m.wirings)[:1], ignore_failure=False))
    ctx.reach("done")


def clear(ctx, mode):
    m, kinds, ps = start(ctx, [("F", "D", "L")])
    op = ctx.pick("op", ["clear", "change_tree_name", "reload_tree", "reload twice"])
    e = Edit(ctx, m, mode)
    if op == "clear":
        if e.do("clear", ClearTree.Request(), True):
            ctx.check(not e.after["nodes"] and not e.after["wirings"], "a cleared tree is empty")
    elif op == "change_tree_name":
        nm = ctx.pick("nm", ["", "other", "a/b"])
        if e.do("change_tree_name", ChangeTreeName.Request(name=nm), True):
            ctx.check(e.after["name"] == nm, "the tree has its new name")
            ctx.check(same(e.after["nodes"], e.before["nodes"]) and e.after["wirings"] == e.before["wirings"], "renaming changes nothing else")
    else:
        for _ in range(2 if op == "reload twice" else 1):
            if not e.do("reload_tree", ReloadTree.Request(), True):
                break
            ctx.check(same(e.after, e.before), "a reloaded tree is the same tree")
    ctx.reach("done")


LW = {"none": [], "good": [(0, "x", 1, "p")], "both": [(0, "x", 1, "p"), (2, "x", 0, "p")], "key": [(0, "zz", 1, "p")], "node": [(0, "x", 1, "p"), (7, "x", 1, "p")], "loop": [(1, "x", 1, "p")]}


def loading(ctx, kinds, wires, twin):
    """Any description: loaded exactly if it describes a forest, with everything it describes."""
    m = load(ctx, ("F", "L"), [-1, 0])
    ids = [0, 1, ctx.pick("id2", [2, 0, 1]) if twin else 2]
    some = [(), (1,), (2,), (1, 2)] if wires != ["none"] else [(), (0,), (1,), (2,), (1, 2)] if twin else [(), (0,), (1,), (2,), (1, 2), (2, 1), (1, 1), (7,)]
    ch = [list(ctx.pick("ch%d" % i, some)) for i in range(3)]
    o = ctx.int("o", 0, 4)
    nodes = [nmsg(k, ids[i], name="n%d" % i, children=ch[i], inputs=[opt(json_int(o))] if i == 1 else []) for i, k in enumerate(kinds)]
    w = ctx.pick("w", wires)
    path = "once" if twin else ctx.pick("how", ["once", "twice"])
    t = TreeStructure(name="loaded", nodes=nodes, data_wirings=[wire(*x) for x in LW[w]], tick_frequency_hz=10.0)
    r = call(m, "load_tree", LoadTree.Request(tree=copy.deepcopy(t)))
    invariant(ctx, m, "load_tree")
    # is it a forest?
    good = len(set(ids)) == 3 and w not in ("key", "node")
    par = {}
    for i, cs in enumerate(ch):
        good = good and len(cs) <= CAP[kinds[i]]
        for c in cs:
            if c in par or c not in ids:
                good = False
            par[c] = i
    for i in ids:
        seen = []
        while i in par and i not in seen:
            seen.append(i)
            i = par[i]
        good = good and i not in par
    ctx.check(bool(r.success) == good, "exactly the descriptions of forests can be loaded")
    ctx.check(m.state == TreeState.EDITABLE, "a tree can be edited after loading, whatever was loaded")
    if not good:
        ctx.check(len(r.error_message) > 0, "a refused load says why")
        ctx.reach("refused")
        if path == "twice":
            ctx.check(call(m, "load_tree", LoadTree.Request(tree=structure(("F", "L"), [-1, 0]))).success and len(m.nodes) == 2, "a valid tree can be loaded after a refused one")
        return
    if path == "twice":
        ctx.check(call(m, "load_tree", LoadTree.Request(tree=copy.deepcopy(t))).success, "a tree can be loaded again")
        invariant(ctx, m, "load_tree")
    s = snap(m)
    ctx.check({k: (n["class"].split(".")[-1], n["name"], n["children"]) for k, n in s["nodes"].items()} == {str(U(i)): (CLS[k].__name__, "n%d" % i, [str(U(c)) for c in ch[i]]) for i, k in enumerate(kinds)}, "a loaded tree has exactly the described nodes")
    ctx.check(s["wirings"] == sorted(wkey(wire(*x)) for x in LW[w]) and s["name"] == "loaded", "a loaded tree has exactly the described wirings")
    ctx.check(cur(m.nodes[U(1)].node_config.inputs["o"]) == o, "loaded nodes have the described options")
    ctx.reach("loaded")


def json_int(v):
    c = IntType(allow_dynamic=False, is_static=True)
    c.set_value(v)
    return c.serialize_value()


def harnesses(tier, mode="keep"):
    t = tier == "thorough"
    sets = SETS + [("O", "F", "F", "D", "L")] if t else SETS
    small = SETS if t else [("F", "D", "L"), ("D", "F", "F")]
    bd = "forests of up to %d nodes with and without child limits, every argument incl. unknown and malformed ids" % (5 if t else 4)
    r = ("failed",) if mode == "atomic" else ("success",)
    hs = []
    for k in sets:
        hs.append(H("move/" + "".join(k), move, dict(sets=[k], mode=mode), bd, reach=r))
    for k in sets:
        hs.append(H("replace/" + "".join(k), replace, dict(sets=[k], mode=mode), bd, reach=r))
    for k in small:
        hs.append(H("add/" + "".join(k), add, dict(sets=[k], mode=mode), bd, reach=r + (("children",) if mode == "keep" else ())))
        hs.append(H("morph/" + "".join(k), morph, dict(sets=[k], mode=mode), bd, reach=r))
        hs.append(H("options/" + "".join(k), options, dict(sets=[k], mode=mode), bd + ", any option value -2..7", reach=r))
    for k, sh in SHAPES.items():
        for nm, fn in (("move", move), ("replace", replace), ("morph", morph), ("options", options), ("remove", remove)):
            hs.append(H(nm + "/" + k, fn, dict(sets=[sh], mode=mode), "the %s tree of 6 nodes %s, every argument" % (k, sh), reach=r))
    hs.append(H("remove", remove, dict(sets=sets, mode=mode), bd, reach=r))
    hs.append(H("retype", retype, dict(mode=mode), "2 nodes with 3 types", reach=("dropped",) if mode == "keep" else ()))
    hs.append(H("wiring", wiring, dict(mode=mode), "up to 2 wirings of 10 candidates", reach=r))
    hs.append(H("clear", clear, dict(mode=mode), "forests of 3 nodes", reach=("done",)))
    if mode == "keep":
        for k in ("FFF", "FDL", "DFO"):
            hs.append(H("load/" + k, loading, dict(kinds=tuple(k), wires=["none"], twin=False), "descriptions of 3 nodes with any children, any option value", reach=("refused", "loaded")))
        hs.append(H("load/wired", loading, dict(kinds=("F", "F", "F"), wires=[x for x in LW if x != "none"], twin=False), "descriptions of 3 nodes with any children and wirings", reach=("refused", "loaded")))
        hs.append(H("load/twins", loading, dict(kinds=("F", "F", "F"), wires=["none"], twin=True), "descriptions of 3 nodes with any children and ids", reach=("refused", "loaded")))
    hs.append(H("history", history, dict(steps=3 if t else 2, mode=mode), "%d edits in a row on forests of 3 nodes" % (3 if t else 2), reach=("done",)))
    return hs
