SUB = '''
import os, shutil, tempfile
import rosidl_runtime_py
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.nodes.io import IOInput, IOOutput
from ros_bt_py.ros_nodes.subtree import Subtree
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.ros_helpers import uuid_to_ros
def U(i):
    return uuid.UUID(int=i)
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
def io(key, c):
    return NodeIO(key=key, type=c.serialize_type(), serialized_value=c.serialize_value())
def msg(cls, i, kids=(), inputs=()):
    return NodeStructure(module=cls.__module__, node_class=cls.__name__, name="n%d" % i, node_id=str(U(i)), child_ids=[str(U(c)) for c in kids], inputs=list(inputs), outputs=[], max_children=-1)
def wire(a, x, b, y):
    return Wiring(source=NodeDataLocation(node_id=str(U(a)), data_key=x), target=NodeDataLocation(node_id=str(U(b)), data_key=y))
def tree(name, nodes, wires=()):
    with open(os.path.join(D, name), "w") as f:
        f.write("version: 1.0.0\\n" + rosidl_runtime_py.message_to_yaml(TreeStructure(name=name, nodes=list(nodes), data_wirings=list(wires), tick_frequency_hz=10.0)))
    return "file://%s/%s" % (D, name)
def path(uri):
    p = dt.PathType(allow_dynamic=False, is_static=True)
    get(p.set_value(uri))
    return p
def gtype(t):
    return io("io_type", dt.GenericType(allow_dynamic=False, is_static=True, value=dt.GENERIC_TYPE_MAP[t]))
'''

seed("s31-subtree-running-inputs", "C28", "ros_nodes/subtree.py", [(
"""        match self.manager.data_flow_manager.push_incoming_data():
            case Err(e):
                return Err(BehaviorTreeException(e))
            case Ok(None):
                pass
        tick_root_result""", """        if self.state != BTNodeState.RUNNING:
            match self.manager.data_flow_manager.push_incoming_data():
                case Err(e):
                    return Err(BehaviorTreeException(e))
                case Ok(None):
                    pass
        tick_root_result""")],
"an input of a subtree changes while the subtree is running",
"the nodes of the subtree don't get the new value",
SUB + '''
SEEN = []
@define_bt_node(NodeConfig(inputs={"v": dt.IntType(allow_static=False)}, outputs={}, max_children=0))
class Look(Script):
    def _do_tick(self):
        SEEN.append(get(self.inputs.get_value("v")))
        return Ok(S.RUNNING)
uri = tree("a", [msg(Sequence, 1, (2, 3)), msg(IOInput, 2, (), [gtype(int)]), msg(Look, 3)], [wire(2, "out", 3, "v")])
n = Subtree(node_id=U(9), name="sub", ros_node=ROS, new_inputs={"subtree_path": path(uri)})
get(n.setup())
i = n.node_config.inputs["%s.in" % U(2)]
get(i.set_value(1)); get(n.tick())
get(i.set_value(2)); get(n.tick())
expect(SEEN == [1, 2], "the node in the subtree saw %s" % SEEN)
''')

seed("s32-bounded-sequence", "C29", "data_types.py", [("""            is_static = False
        if match_array:""", """            is_static = max_len_str is not None
        if match_array:""")],
"a bounded sequence field with fewer elements than its bound",
"the shorter list is refused",
'''
c = get(dt.get_message_field_io_type("sequence<int16, 3>"))
expect(c.set_value([1]).is_ok(), "a list of 1 was refused for a field of at most 3")
''')

seed("s33-leaf-max-children", "C30", "node.py", [(
"""            max_children=(
                self.node_config.max_children
                if self.node_config.max_children is not None
                else -1
            ),
""", """            max_children=self.node_config.max_children or -1,
""")],
"a node without children (0 is falsy)",
"the description of a leaf says it supports any number of children",
'''
n = Script(name="n", ros_node=ROS)
expect(n.to_structure_msg().max_children == 0, "a leaf is described with max_children=%s" % n.to_structure_msg().max_children)
''')

seed("s34-data-nested-once", "C31", "subtree_manager.py", [(
"""            self._publish_data = value
            for manager in self.nested_subtree_managers.values():
                manager.set_publish_data(value)
""", """            self._publish_data = value
            for manager in self.nested_subtree_managers.values():
                manager._publish_data = value
""")],
"publishing of data switched on with subtrees nested three levels deep",
"the data of the innermost subtree are never published",
SUB + '''
a = tree("a", [msg(Sequence, 1, (2, 3)), msg(IOInput, 2, (), [gtype(int)]), msg(IOOutput, 3, (), [gtype(int)])], [wire(2, "out", 3, "in")])
def sub(i, uri):
    return msg(Subtree, i, (), [io("subtree_path", path(uri))])
b = tree("b", [sub(4, a)])
c = tree("c", [sub(5, b)])
top = SubtreeManager()
n = Subtree(node_id=U(9), name="sub", ros_node=ROS, subtree_manager=top, new_inputs={"subtree_path": path(c)})
top.set_publish_data(True)
inner, depth = top, 0
while inner.nested_subtree_managers:
    expect(inner.get_publish_data(), "data of the subtrees at level %d aren't published" % depth)
    inner, depth = list(inner.nested_subtree_managers.values())[0], depth + 1
expect(depth == 3, "demonstration set up wrongly")
''')

seed("s36-tick-during-stop", "C32", "tree_exec_manager.py", [(
"""        if self._tick_thread and self._tick_thread.is_alive():
            response.success = False
            response.error_message = (
                "Tried to tick when tree is already running, aborting"
""", """        if self.state == TreeState.TICKING:
            response.success = False
            response.error_message = (
                "Tried to tick when tree is already running, aborting"
""")],
"TICK_ONCE from one thread while the STOP of another waits for the running tick to finish",
"a second thread starts ticking the tree while the first is still in it",
'''
import threading, time
import ros_bt_py.tree_exec_manager as TM
from ros_bt_py.tree_edit_manager import TreeEditManager
class Daemon(threading.Thread):
    def __init__(self, *a, **k):
        super().__init__(*a, daemon=True, **k)
TM.Thread = Daemon
for k in ("Lock", "RLock"):
    if hasattr(TM, k):
        setattr(TM, k, getattr(threading, k))
inside, most, go, entered = [0], [0], threading.Event(), threading.Event()
@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Slow(Script):
    def _do_tick(self):
        inside[0] += 1
        most[0] = max(most[0], inside[0])
        entered.set()
        go.wait(20)
        inside[0] -= 1
        return Ok(S.RUNNING)
C = ControlTreeExecution.Request
m = TreeEditManager(ros_node=ROS, name="t")
expect(m.add_node(AddNode.Request(parent_node_id=str(uuid.UUID(int=0)), node=NodeStructure(name="n", module=Slow.__module__, node_class="Slow", max_children=-1)), AddNode.Response()).success, "setup of the demonstration")
m.tick_frequency_hz = 10.0
r = m.control_execution(C(command=C.TICK_PERIODICALLY), ControlTreeExecution.Response())
expect(r.success and entered.wait(10), "setup of the demonstration")
a = threading.Thread(target=lambda: m.control_execution(C(command=C.STOP), ControlTreeExecution.Response()), daemon=True)
a.start()
for _ in range(100):
    if m.state == TreeState.STOP_REQUESTED:
        break
    time.sleep(0.05)
time.sleep(0.2)
b = threading.Thread(target=lambda: m.control_execution(C(command=C.TICK_ONCE), ControlTreeExecution.Response()), daemon=True)
b.start()
time.sleep(1.5)
n = most[0]
go.set()
a.join(10), b.join(10)
expect(n == 1, "%d threads were ticking the node at once" % n)
''')

seed("s37-diagnostics-path-cached", "C33", "debug_manager.py", [(
"""                "state": "PRE_TICK",
                "path": [],
            }

            node = node_instance
            while node is not None:
                diagnostics["path"].append(node.name)
                node = node.parent
            # reverse the list
            diagnostics["path"] = diagnostics["path"][::-1]
""", """                "state": "PRE_TICK",
                "path": [],
            }

            path = getattr(node_instance, "diagnostics_path", None)
            if path is None:
                path = []
                node = node_instance
                while node is not None:
                    path.append(node.name)
                    node = node.parent
                # reverse the list
                path = path[::-1]
                node_instance.diagnostics_path = path
            diagnostics["path"] = path
""")],
"a node moved below another parent, or an ancestor renamed, after the tree was ticked with diagnostics",
"the diagnostics of its ticks tell the old path",
'''
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.nodes.sequence import Sequence
from std_srvs.srv import SetBool
got = []
d = DebugManager(ros_node=ROS, node_diagnostics_publish_callback=got.append)
d.set_collect_node_diagnostics(SetBool.Request(data=True), SetBool.Response())
l = leaf("l"); l.debug_manager = d
p, q = Sequence(name="p", ros_node=ROS), Sequence(name="q", ros_node=ROS)
build(p, l)
get(l.setup()); get(l.tick())
get(p.remove_child(l.node_id)); build(q, l)
got.clear()
get(l.tick())
paths = [v.value for g in got for v in g.values if v.key == "path"]
expect(paths and all("q" in x and "p" not in x for x in paths), "paths %s" % paths)
''')

seed("s38-enum-switch-reset", "C06", "ros_nodes/enum_switch.py", [(
"""        if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
""", """        if self.state is BTNodeState.SUCCEEDED:
""")],
"the selected child failed and is selected again",
"the child is executed again without having been reset",
'''
from vf_msgs.msg import Enum as cls
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
names = ["A", "B", "C"]
n = EnumSwitch(name="s", ros_node=ROS, new_inputs={"ros_message_type": dt.RosComponentType(value=cls)})
log = []
build(n, leaf(names[0], S.FAILED, log=log))
get(n.setup())
get(n.node_config.inputs["case"].set_value(getattr(cls, names[0])))
get(n.tick()); log.clear()
get(n.tick())
expect(log == [(names[0], "reset"), (names[0], "tick")], "calls of the child: %s" % log)
''')

seed("s39-list-length-compat", "C13", "data_types.py", [(
"""        if self.strict_length:
            if not other.strict_length:
                return False
            if other.max_length != self.max_length:
                return False
""", """        if self.strict_length:
            if other.max_length != self.max_length:
                return False
""")],
"a list of at most n elements offered where exactly n are needed",
"the types are said to be compatible, but the target refuses shorter lists",
'''
a = dt.ListType(element_type=dt.IntType(), max_length=3, strict_length=True)
b = dt.ListType(element_type=dt.IntType(), max_length=3, strict_length=False)
get(b.set_value([1]))
expect(not a.is_compatible(b) or a.set_value(get(b.get_value())).is_ok(), "compatible, but the value is refused")
''')
