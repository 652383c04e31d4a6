TREE = '''
from rclpy.node import Node as _N
import sys, types
from ros_bt_py_interfaces.srv import *
from ros_bt_py_interfaces.msg import *
from ros_bt_py.ros_helpers import uuid_to_ros, ros_to_uuid
from ros_bt_py.tree_edit_manager import TreeEditManager
TE = ControlTreeExecution.Request
M = TreeEditManager(ros_node=ROS, name="t", publish_tree_structure_callback=lambda m: None)
def add(cls, name, parent=None, index=-1, inputs=()):
    r = M.add_node_at_index(AddNodeAtIndex.Request(parent_node_id=parent or uuid_to_ros(uuid.UUID(int=0)), new_child_index=index,
        node=NodeStructure(name=name, module=cls.__module__, node_class=cls.__name__, version="", max_children=-1, inputs=list(inputs), outputs=[], child_ids=[])), AddNodeAtIndex.Response())
    expect(r.success, "setup of the demonstration: " + str(r.error_message))
    return r.node_id
def kids(i):
    return [c.name for c in M.nodes[ros_to_uuid(i).unwrap()].children]
def node(i):
    return M.nodes[ros_to_uuid(i).unwrap()]
'''

seed("s13-current-flag", "C14", "data_flow_manager.py", [(
"""            wiring_data.is_current = (
                wiring_data.serialized_data == target_container.serialize_value()
            )
""", """            wiring_data.is_current = (
                not source_container.is_updated()
                or wiring_data.serialized_data == target_container.serialize_value()
            )
""")],
"a source whose value was not pushed although it isn't marked as updated (e.g. set before the wiring was initialized)",
"a wiring is reported as current although the target does not hold the value of the source",
'''
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.ros_helpers import uuid_to_ros
@define_bt_node(NodeConfig(inputs={}, outputs={"o": dt.IntType()}, max_children=0))
class Src(Script):
    pass
@define_bt_node(NodeConfig(inputs={"i": dt.IntType()}, outputs={}, max_children=0))
class Dst(Script):
    pass
a, b = Src(name="a", ros_node=ROS), Dst(name="b", ros_node=ROS)
get(a.node_config.outputs["o"].set_value(7)); a.node_config.outputs["o"].reset_updated()
get(b.node_config.inputs["i"].set_value(3))
w = Wiring()
w.source.node_id, w.source.data_key = uuid_to_ros(a.node_id), "o"
w.target.node_id, w.target.data_key = uuid_to_ros(b.node_id), "i"
m = DataFlowManager({}, {})
get(m.initialize({a.node_id: a, b.node_id: b}, [w]))
expect(m.get_wiring_data()[0].is_current is False, "reported as current: source 7, target 3")
''')

seed("s14-replace-position", "C15", "tree_edit_manager.py", [(
"""                    if index < old_node_child_index:
                        old_node_child_index -= 1
""", """                    if index + 1 == old_node_child_index:
                        old_node_child_index -= 1
""")],
"replacing a node by a sibling that stands before it, with another sibling in between",
"the replacement ends up one position too far right",
TREE + '''
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.nodes.passthrough_node import PassthroughNode
r = add(Sequence, "root")
k = [add(Sequence, n, r) for n in "abcd"]
res = M.replace_node(ReplaceNode.Request(old_node_id=k[2], new_node_id=k[0]), ReplaceNode.Response())
expect(res.success, res.error_message)
expect(kids(r) == ["b", "a", "d"], "children are %s" % kids(r))
''')

seed("s15-options-order", "C15", "tree_edit_manager.py", [(
"""            match node.remove_child(child_id).and_then(
                lambda child: new_node.add_child(child)
            ):
""", """            match node.remove_child(child_id).and_then(
                lambda child: new_node.add_child(
                    child, at_index=max(0, len(new_node.children) - 1)
                )
            ):
""")],
"setting options of (or renaming) a node with at least two children",
"the children change their order",
TREE + '''
from ros_bt_py.nodes.sequence import Sequence
r = add(Sequence, "root")
for n in "abc":
    add(Sequence, n, r)
res = M.set_options(SetOptions.Request(node_id=r, rename_node=True, new_name="new", inputs=[]), SetOptions.Response())
expect(res.success, res.error_message)
expect(kids(r) == ["a", "b", "c"], "children are %s" % kids(r))
''')

seed("s16-partial-wiring", "C16", "tree_edit_manager.py", [(
"""                case Ok(None):
                    successful_wirings.append(wiring)

        # only""", """                case Ok(None):
                    if request.ignore_failure or len(request.wirings) == 1:
                        successful_wirings.append(wiring)
                    else:
                        self.wirings.append(wiring)

        # only""")],
"a request with several wirings of which a later one is impossible",
"the wirings before the impossible one stay although the request failed",
TREE + '''
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.nodes.format import StringConcatenation
r = add(Sequence, "root")
i = [NodeIO(key=k, type=dt.StringType(is_static=False).serialize_type()) for k in "ab"]
a, b = add(StringConcatenation, "a", r, inputs=i), add(StringConcatenation, "b", r, inputs=i)
def w(s, sk, t, tk):
    x = Wiring()
    x.source.node_id, x.source.data_key, x.target.node_id, x.target.data_key = s, sk, t, tk
    return x
res = M.wire_data(WireNodeData.Request(wirings=[w(a, "formatted_string", b, "a"), w(a, "formatted_string", b, "nothing")], ignore_failure=False), WireNodeData.Response())
expect(not res.success, "an impossible wiring was accepted")
expect(list(M.wirings) == [], "a refused request left wirings behind")
''')

seed("s17-waiting-editable", "C17", "tree_edit_manager.py", [(
"""        \"\"\"Change the name of the currently loaded tree.\"\"\"
        self.name = request.name
""", """        \"\"\"Change the name of the currently loaded tree.\"\"\"
        self.name = request.name
        self.state = TreeState.EDITABLE
"""), ("""    @is_edit_service
    @typechecked
    def change_tree_name(""", """    @typechecked
    def change_tree_name("""), ("from ros_bt_py_interfaces.msg import", "from ros_bt_py_interfaces.msg import TreeState  # isort:skip\nfrom ros_bt_py_interfaces.msg import")],
"renaming the tree after it has run",
"the name of a tree that has run can be changed and makes the tree editable",
TREE + '''
from ros_bt_py.nodes.sequence import Sequence
add(Sequence, "root")
M.state = TreeState.WAITING_FOR_TICK
res = M.change_tree_name(ChangeTreeName.Request(name="x"), ChangeTreeName.Response())
expect(not res.success and M.state == TreeState.WAITING_FOR_TICK and M.name != "x", "renamed although it has run")
''')

seed("s18-until-result-sticks", "C18", "tree_exec_manager.py", [(
"""            self._once = False
            self._stop_after_result = False
            if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
                self._stop_after_result = True
""", """            self._once = False
            if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
                self._stop_after_result = True
""")],
"TICK_UNTIL_RESULT, then TICK_PERIODICALLY",
"periodic ticking stops at the first result",
TREE + '''
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py_interfaces.msg import TreeState
add(Sequence, "root")
r = M.control_execution(TE(command=TE.TICK_UNTIL_RESULT), ControlTreeExecution.Response())
stubs.world().threads[-1].run_now()
expect(M.state == TreeState.IDLE, "until result")
n = [0]
def hook(*a):
    n[0] += 1
    if n[0] == 3:
        M.state = TreeState.STOP_REQUESTED
stubs.world().rate_hook = hook
r = M.control_execution(TE(command=TE.TICK_PERIODICALLY), ControlTreeExecution.Response())
stubs.world().threads[-1].run_now()
expect(n[0] == 3, "periodic ticking ended after %d ticks" % n[0])
''')

seed("s19-stop-late", "C19", "tree_exec_manager.py", [(
"""            tick_start_timestamp = self.ros_node.get_clock().now()
            if self.state == TreeState.STOP_REQUESTED:
                break

            match self.data_flow_manager""", """            tick_start_timestamp = self.ros_node.get_clock().now()
            if self.state == TreeState.STOP_REQUESTED and not self._stop_after_result:
                break

            match self.data_flow_manager""")],
"STOP while ticking until a result whose first result is still to come",
"TICK_UNTIL_RESULT keeps ticking after a STOP",
TREE + '''
from ros_bt_py_interfaces.msg import TreeState
class Stop(Exception):
    pass
from ros_bt_py.ros_nodes.wait import Wait
inp = NodeIO(key="seconds_to_wait", serialized_value="1000.0", type=dt.FloatType(allow_dynamic=False, min_value=0).serialize_type())
w = add(Wait, "w", inputs=[inp])
t = []
orig = node(w)._do_tick
def tick():
    t.append(1)
    return orig()
node(w)._do_tick = tick
n = [0]
def hook(*a):
    n[0] += 1
    if n[0] == 2:
        M.state = TreeState.STOP_REQUESTED
    if n[0] == 5:
        raise Stop()
stubs.world().rate_hook = hook
M.control_execution(TE(command=TE.TICK_UNTIL_RESULT), ControlTreeExecution.Response())
try:
    stubs.world().threads[-1].run_now()
except Stop:
    pass
expect(len(t) == 2, "%d ticks although stopped after the second" % len(t))
''')

seed("s20-rename-overwrites", "C20", "package_manager.py", [(
"""                if request.allow_rename:
                    unique_save""", """                if request.allow_rename and not request.allow_overwrite:
                    unique_save""")],
"saving with both allow_overwrite and allow_rename over an existing file",
"the existing file is overwritten although a renamed one was asked for",
'''
import tempfile, shutil
from ros_bt_py.package_manager import PackageManager
d = tempfile.mkdtemp()
try:
    open(d + "/t.yaml", "w").write("old")
    m = PackageManager(tree_storage_directory_paths=[d])
    r = m.save_tree_to_path(SaveTree.Request(storage_path=d, filepath="t.yaml", allow_overwrite=True, allow_rename=True, tree=TreeStructure(name="x")), SaveTree.Response())
    expect(open(d + "/t.yaml").read() == "old", "the existing file was overwritten")
finally:
    shutil.rmtree(d)
''')

seed("s21-throttle-floor", "C21", "ros_nodes/throttle.py", [(
"            or (current_time - self._last_tick).nanoseconds / 1e9 > self._tick_interval\n",
"            or (current_time - self._last_tick).nanoseconds // 1e9 > self._tick_interval\n")],
"an interval that isn't a whole number of seconds",
"the elapsed time is rounded down to whole seconds, the child is ticked too late",
'''
from ros_bt_py.ros_nodes.throttle import Throttle
log = []
n = Throttle(name="t", ros_node=ROS)
get(n.node_config.inputs["tick_interval"].set_value(0.5))
build(n, leaf("a", S.SUCCEEDED, S.FAILED, log=log))
get(n.setup()); get(n.tick())
stubs.world().now_ns += 800000000
expect(get(n.tick()) == S.FAILED, "the child was not ticked although the interval has elapsed")
''')


MK = """
from vf_msgs.srv import Ask
from vf_msgs.action import Mix
from vf_msgs.msg import *
def field(t):
    c = dt.get_message_field_io_type(t).unwrap()
    c.is_static = False
    return c
def put(n, **kw):
    for k, v in kw.items():
        get(n.node_config.inputs[k].set_value(v))
def out(n, k):
    return n.node_config.outputs[k].get_value().ok()
def node(cls, _fields=(), **inputs):
    for k, c in cls._node_config.inputs.items():
        if k not in inputs and c.allow_dynamic:
            m = c.serialize_type()
            m.is_static = False
            inputs[k] = get(type(c).from_msg(m))
    for c in inputs.values():
        if hasattr(c, "set_type_map"):
            get(c.set_type_map(dict(cls._node_config.inputs, **inputs)))
    return cls(name="n", ros_node=ROS, new_inputs=inputs)
W = stubs.world()
"""

seed("s22-service-timeout-restart", "C22", "ros_nodes/service.py", [(
"""        self._service_request_future = None
        self._input_request = None
        self._last_service_call_time = None
        return Ok(BTNodeState.IDLE)
""", """        self._service_request_future = None
        self._input_request = None
        return Ok(BTNodeState.IDLE)
"""), (
"""            self._reported_result = False
            self._last_service_call_time = self.ros_node.get_clock().now()
""", """            self._reported_result = False
            if self._last_service_call_time is None:
                self._last_service_call_time = self.ros_node.get_clock().now()
"""), (
"""        self._service_request_future: Optional[Future] = None
        self._input_request = None

        match""", """        self._service_request_future: Optional[Future] = None
        self._input_request = None
        self._last_service_call_time = None

        match""")],
"a second request (new inputs or after an interruption) some time after the first one",
"the timeout of a request counts from the first request, later requests fail too early",
MK + """
from ros_bt_py.ros_nodes.service import Service
n = node(Service, service_type=dt.RosServiceType(value=Ask, interface_id=1), wait_for_response_seconds=dt.FloatType(value=2.0, allow_dynamic=False),
         service_name=dt.RosServiceName(interface_id=1, is_static=False), a=field("int32"), q=field("string"))
get(n.setup())
put(n, service_name="/x", a=1, q="q")
get(n.tick())
W.now_ns += 10 ** 9
put(n, a=2)
get(n.tick())
W.now_ns += int(1.5 * 10 ** 9)
expect(get(n.tick()) == S.RUNNING, "the second request timed out after 1.5 of 2 seconds")
""")

seed("s23-wait-service-client", "C22", "ros_nodes/service.py", [(
"""        if self._service_client.service_is_ready():
            return Ok(BTNodeState.SUCCEEDED)
        else:
""", """        if self._service_client.service_is_ready():
            self._last_service_call_time = self.ros_node.get_clock().now()
            return Ok(BTNodeState.SUCCEEDED)
        else:
""")],
"a service that was available in an earlier tick and is gone for longer than the timeout when the node is asked the next time",
"WaitForService fails on the first tick that doesn't find the service",
MK + """
from ros_bt_py.ros_nodes.service import WaitForService
n = node(WaitForService, service_type=dt.RosServiceType(value=Ask, interface_id=1), wait_for_service_seconds=dt.FloatType(value=2.0, allow_dynamic=False),
         service_name=dt.RosServiceName(interface_id=1, is_static=False))
get(n.setup())
put(n, service_name="/x")
W.service_ready = lambda c: True
expect(get(n.tick()) == S.SUCCEEDED, "available")
W.service_ready = lambda c: False
W.now_ns += 3 * 10 ** 9
expect(get(n.tick()) == S.RUNNING, "failed without having waited")
""")

seed("s24-action-timeout-clock", "C23", "ros_nodes/action.py", [(
"""            self._running_goal_start_time = self.ros_node.get_clock().now()
            self._running_goal_future""", """            if getattr(self, "_running_goal_start_time", None) is None:
                self._running_goal_start_time = self.ros_node.get_clock().now()
            self._running_goal_future"""), (
"""            self._running_goal_handle = None
            self._running_goal_future = None
            self._internal_state = ActionStates.FINISHED
            if result.status""", """            self._running_goal_handle = None
            self._running_goal_future = None
            self._running_goal_start_time = None
            self._internal_state = ActionStates.FINISHED
            if result.status""")],
"a goal that was interrupted (or cancelled for new inputs) and one sent later",
"the time of a goal counts from an earlier one, it is cancelled too early",
MK + """
from ros_bt_py.ros_nodes.action import Action
n = node(Action, action_type=dt.RosActionType(value=Mix, interface_id=1), timeout_seconds=dt.FloatType(value=2.0, allow_dynamic=False),
         action_name=dt.RosActionName(interface_id=1, is_static=False), order=field("int32"), tag=field("string"))
get(n.setup())
put(n, action_name="/x", order=1, tag="t")
def accept():
    g = W.goals[-1]
    h = stubs.GoalHandle(g)
    g["future"].set_result(h)
    return h
get(n.tick()); accept(); get(n.tick())
get(n.untick())
W.now_ns += 5 * 10 ** 9
get(n.tick()); h = accept(); get(n.tick())
W.now_ns += 10 ** 9
get(n.tick())
get(n.tick())
expect(not W.goals[-1]["cancel_futures"], "the second goal was cancelled after 1 of 2 seconds")
""")

seed("s25-memory-first-message", "C24", "ros_nodes/topic.py", [(
"""            self._msg = msg
            self._msg_timestamp = self.ros_node.get_clock().now()
""", """            if self._msg is None or msg != self._msg:
                self._msg_timestamp = self.ros_node.get_clock().now()
            self._msg = msg
""")],
"a topic on which the same message is published again and again",
"the memory subscriber fails although messages arrive, if they are equal",
MK + """
from ros_bt_py.ros_nodes.topic import TopicMemorySubscriber
n = node(TopicMemorySubscriber, topic_type=dt.RosTopicType(value=Flat, interface_id=1), topic_name=dt.RosTopicName(interface_id=1, is_static=False), memory_delay=dt.FloatType(value=1.0, allow_dynamic=False))
get(n.setup())
put(n, topic_name="/x", reliable=True, transient_local=False, depth=1)
expect(get(n.tick()) == S.RUNNING, "no message yet")
W.subs[-1].callback(Flat(i=1))
W.now_ns += 2 * 10 ** 9
W.subs[-1].callback(Flat(i=1))
expect(get(n.tick()) == S.SUCCEEDED, "the latest message has just arrived")
""")

seed("s26-publisher-durability", "C24", "ros_nodes/topic.py", [(
"""        match self.inputs.any_updated(
            "topic_name", "reliable", "transient_local", "depth"
        ):
""", """        match self.inputs.any_updated(
            "topic_name", "reliable", "depth"
        ):
""", 1)],
"changing only transient_local of a publisher that already exists",
"the publisher keeps the old durability",
MK + """
from ros_bt_py.ros_nodes.topic import TopicPublisher
from rclpy.qos import QoSDurabilityPolicy
n = node(TopicPublisher, topic_type=dt.RosTopicType(value=Flat, interface_id=1), topic_name=dt.RosTopicName(interface_id=1, is_static=False), message=dt.ReferenceType(reference="topic_type", is_static=False))
get(n.setup())
put(n, topic_name="/x", reliable=True, transient_local=False, depth=1, message=Flat(i=1))
get(n.tick())
put(n, transient_local=True)
get(n.tick())
p = [p for p in W.publishers if not p.destroyed][-1]
expect(p.qos_profile.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL, "old durability")
""")

seed("s27-floordiv", "C25", "nodes/maths.py", [(
"""    "floordiv": operator.floordiv,
    "//": operator.floordiv,
""", """    "floordiv": operator.floordiv,
    "//": lambda a, b: int(a / b) if isinstance(a, int) else a // b,
""")],
"floor division of integers of different signs or beyond 2**53",
"the quotient is rounded towards zero",
MK + """
from ros_bt_py.nodes.maths import Operation
T = dt.GENERIC_TYPE_MAP[int]
n = node(Operation, operand_type=dt.GenericType(valid_types=[bool, int, float], value=T))
get(n.setup())
put(n, operator="//", a=-7, b=2)
get(n.tick())
expect(out(n, "result") == -4, "-7 // 2 = %s" % out(n, "result"))
""")

seed("s28-iterate-new-list", "C26", "nodes/list.py", [(
"""            self.loginfo("Input list changed - resetting iterator")
            self.reset_counter()
""", """            self.loginfo("Input list changed - resetting iterator")
            self.counter = 0
""")],
"a new list arriving while the child is running on an item of the old one",
"the child is ticked in the same tick the new item is output, before the tree could digest it",
MK + """
from ros_bt_py.nodes.list import IterateList
log = []
n = node(IterateList, item_type=dt.GenericType(value=dt.GENERIC_TYPE_MAP[int]), list=dt.ReferenceListType(reference="item_type", is_static=False))
build(n, leaf("c", S.RUNNING, log=log))
get(n.setup())
put(n, list=[1, 2]); get(n.tick()); get(n.tick())
put(n, list=[3])
log.clear()
get(n.tick())
expect(("c", "tick") not in log, "the child was ticked before the new item could be pushed")
""")

seed("s29-append-twice", "C26", "nodes/setters.py", [("""                Ok(li + [v])
""", """                Ok(li + [v] if not li or li[-1] != v else li)
""")],
"appending a value that equals the last item",
"the value isn't appended twice",
MK + """
from ros_bt_py.nodes.setters import AppendListItem
n = node(AppendListItem, list_type=dt.GenericType(value=dt.GENERIC_TYPE_MAP[int]), list=dt.ReferenceListType(reference="list_type", is_static=False), value=dt.ReferenceType(reference="list_type", is_static=False))
get(n.setup())
put(n, list=[1], value=1)
get(n.tick())
expect(out(n, "new_list") == [1, 1], "appending 1 to [1]: %s" % out(n, "new_list"))
""")

seed("s30-yaml-stale-content", "C27", "nodes/file.py", [(
"""        if updated:
            self._cached_result = None

        # If we""", """        if updated and self._cached_result != BTNodeState.SUCCEEDED:
            self._cached_result = None

        # If we""")],
"a new path after a file was loaded successfully",
"the content of the first file stays",
MK + """
import tempfile, shutil
from ros_bt_py.nodes.file import YamlDict
d = tempfile.mkdtemp()
try:
    open(d + "/a.yaml", "w").write("a: 1")
    open(d + "/b.yaml", "w").write("b: 2")
    n = node(YamlDict, file_path=dt.PathType(is_static=False), element_type=dt.GenericType(valid_types=[bool, int, float, str, list, dict], value=dt.GENERIC_TYPE_MAP[int]))
    get(n.setup())
    put(n, file_path="file://" + d + "/a.yaml"); get(n.tick())
    put(n, file_path="file://" + d + "/b.yaml"); get(n.tick())
    expect(out(n, "content") == {"b": 2}, "content is %s" % out(n, "content"))
finally:
    shutil.rmtree(d)
""")
