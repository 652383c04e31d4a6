"""Edits are refused unless the tree is editable."""
from harness.edit import *
from harness.edit import _Base

C = ControlTreeExecution.Request
HOOK = []



@define_bt_node(NodeConfig(inputs={}, outputs={"x": IntType()}, max_children=None))
class EHook(_Base, FlowControl):
    """Calls back while it is set up, ticked or stopped; does not tick its children (their inputs are never set)."""

    def add_extra_inputs(self):
        return Ok({})

    def _do_setup(self):
        r = _Base._do_setup(self)
        for h in HOOK:
            h("setup")
        return r

    def _do_tick(self):
        for h in HOOK:
            h("tick")
        return Ok(RES[0])

    def _do_untick(self):
        for h in HOOK:
            h("untick")
        return Ok(S.IDLE)


RES = [S.RUNNING]


def every(i):
    """every editing service with arguments that are fine for the tree built below"""
    a = {
        "add_node": AddNode.Request(parent_node_id=str(U(0)), node=nmsg("L", None, name="new")),
        "add_node_at_index": AddNodeAtIndex.Request(parent_node_id=str(U(0)), node=nmsg("L", None, name="new"), new_child_index=0),
        "remove_node": RemoveNode.Request(node_id=str(U(2)), remove_children=False),
        "remove_node all": RemoveNode.Request(node_id=str(U(0)), remove_children=True),
        "morph_node": MorphNode.Request(node_id=str(U(1)), new_node=nmsg("F", None, name="m")),
        "set_options": SetOptions.Request(node_id=str(U(1)), rename_node=True, new_name="other", inputs=[opt("3")]),
        "move_node": MoveNode.Request(node_id=str(U(2)), parent_node_id=str(U(0)), new_child_index=0),
        "replace_node": ReplaceNode.Request(old_node_id=str(U(1)), new_node_id=str(U(2))),
        "wire_data": WireNodeData.Request(wirings=[wire(0, "x", 2, "p")]),
        "unwire_data": WireNodeData.Request(wirings=[wire(0, "x", 1, "p")]),
        "clear": ClearTree.Request(),
        "load_tree": LoadTree.Request(tree=structure(("F", "L"), [-1, 0])),
        "load_tree_from_path": LoadTreeFromPath.Request(path="file:///nowhere/at/all.yaml"),
        "reload_tree": ReloadTree.Request(),
        "change_tree_name": ChangeTreeName.Request(name="renamed"),
    }
    return i.split(" ")[0], a[i]


ALL = ["add_node", "add_node_at_index", "remove_node", "remove_node all", "morph_node", "set_options", "move_node", "replace_node", "wire_data", "unwire_data", "clear", "load_tree",
       "load_tree_from_path", "reload_tree", "change_tree_name"]


def tree(ctx, hook=False):
    if not hook:
        return load(ctx, ("F", "D", "L"), [-1, 0, 1], [(0, "x", 1, "p")])
    m = manager()
    t = structure(("F", "D", "L"), [-1, 0, 1], [(0, "x", 1, "p")])
    t.nodes[0] = NodeStructure(module=__name__, node_class="EHook", name="n0", node_id=str(U(0)), child_ids=[str(U(1))], inputs=[], outputs=[], max_children=-1)
    ctx.check(m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()).success, "a valid tree can be loaded")
    return m


def refused(ctx, m, op, what):
    before = snap(m)
    st = m.state
    name, req = every(op)
    r = call(m, name, req)
    ctx.check(not r.success, what + ": edits are refused")
    ctx.check(len(r.error_message) > 0, what + ": a refused edit says why")
    after = snap(m)
    ctx.check(same(after["nodes"], before["nodes"]) and after["wirings"] == before["wirings"] and after["name"] == before["name"], what + ": a refused edit changes nothing")
    ctx.check(m.state == st, what + ": a refused edit keeps the state of the tree")


def anystate(ctx, op):
    m = tree(ctx)
    st = ctx.enum("state", [TreeState.EDITABLE, TreeState.ERROR, TreeState.IDLE, TreeState.WAITING_FOR_TICK, TreeState.TICKING, TreeState.STOP_REQUESTED, ""])
    m.state = st
    if st == TreeState.EDITABLE:
        name, req = every(op)
        r = call(m, name, req)
        ctx.check(r.success == (op != "load_tree_from_path"), "edits are possible while the tree is editable")
        ctx.reach("editable")
        return
    refused(ctx, m, op, "not editable")
    ctx.reach("refused")


def driven(ctx, steps):
    """Every edit after any commands: refused unless the tree never ran or was shut down since."""
    m = tree(ctx, hook=True)
    RES[0] = ctx.pick("res", [S.RUNNING, S.SUCCEEDED, S.BROKEN])
    HOOK[:] = []
    run = False
    for s in range(steps):
        cmd = ctx.pick("c%d" % s, ["once", "periodic", "result", "stop", "reset", "shutdown", "nothing"])
        v = {"once": C.TICK_ONCE, "periodic": C.TICK_PERIODICALLY, "result": C.TICK_UNTIL_RESULT, "stop": C.STOP, "reset": C.RESET, "shutdown": C.SHUTDOWN, "nothing": C.DO_NOTHING}[cmd]
        r = call(m, "control_execution", C(command=v, tick_frequency_hz=10.0))
        if r.success and cmd in ("once", "periodic", "result", "reset"):
            run = True
        if r.success and cmd == "shutdown":
            run = False
        if not r.success and not run and cmd in ("once",):
            run = None
    op = ctx.pick("op", ALL)
    if run:
        refused(ctx, m, op, "after it ran")
        ctx.reach("refused")
        ctx.check(call(m, "control_execution", C(command=C.STOP)) is not None, "stop answers")
        r = call(m, "control_execution", C(command=C.SHUTDOWN))
        if RES[0] is S.BROKEN and not r.success:
            r = call(m, "control_execution", C(command=C.SHUTDOWN))
        if r.success:
            name, req = every(op)
            ctx.check(call(m, name, req).success == (op != "load_tree_from_path"), "edits are possible once the tree was shut down")
            ctx.reach("again")
    elif run is False:
        name, req = every(op)
        ctx.check(call(m, name, req).success == (op != "load_tree_from_path"), "edits are possible while the tree did not run since it was shut down")
        ctx.reach("editable")
    HOOK[:] = []


def during(ctx, cmds):
    """Edits requested while a node of the tree is set up, ticked or stopped."""
    m = tree(ctx, hook=True)
    RES[0] = S.RUNNING
    at = ctx.pick("at", ["setup", "tick", "untick"])
    op = ctx.pick("op", ALL)
    cmd = ctx.pick("cmd", cmds)
    seen = []
    HOOK[:] = []

    def hook(when):
        if when == at and not seen:
            seen.append(when)
            refused(ctx, m, op, "during " + at)
            if when == "tick" and m.state == TreeState.TICKING:
                ctx.reach("ticking")
    HOOK[:] = [hook]
    with stubs.coop():
        call(m, "control_execution", C(command=cmd, tick_frequency_hz=10.0))
        for c in stubs.world().coops:
            c.resume()
        call(m, "control_execution", C(command=C.STOP))
    ctx.check(len(seen) == 1, "the node is set up, ticked and stopped")
    ctx.reach("seen")


def harnesses(tier):
    t = tier == "thorough"
    hs = []
    for op in ALL:
        hs.append(H("state/" + op.replace(" ", "-"), anystate, dict(op=op), "any state of the tree", reach=("editable", "refused")))
    n = 3 if t else 2
    hs.append(H("driven", driven, dict(steps=n), "any %d commands of 7, children RUNNING, SUCCEEDED or BROKEN" % n, reach=("refused", "again", "editable")))
    hs.append(H("during", during, dict(cmds=[C.TICK_ONCE, C.TICK_PERIODICALLY]), "one edit during setup, tick or untick", reach=("seen", "ticking")))
    return hs
