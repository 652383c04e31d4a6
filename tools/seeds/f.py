seed("s46-memory-restart", "C36", "nodes/sequence.py", [(
"""        self.last_running_child = 0
        for child in self.children:
            match child.setup():
""", """        for child in self.children:
            match child.setup():
"""), (
"""    def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
        if not self.children:
            self.logwarn("Ticking without children. Is this really what you want?")
            return Ok(BTNodeState.SUCCEEDED)

        # If we've previously succeeded or failed, reset
        # last_running_child and reset all children
""", """    last_running_child = 0

    def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
        if not self.children:
            self.logwarn("Ticking without children. Is this really what you want?")
            return Ok(BTNodeState.SUCCEEDED)

        # If we've previously succeeded or failed, reset
        # last_running_child and reset all children
"""), (
"""        self.last_running_child = 0
        return Ok(BTNodeState.SHUTDOWN)
""", """        return Ok(BTNodeState.SHUTDOWN)
""")],
"a MemorySequence that is shut down while a later child is running, and then started again",
"the restarted sequence begins at the child that was running when it was shut down",
'''
from ros_bt_py.nodes.sequence import MemorySequence
log = []
n = build(MemorySequence(name="m", ros_node=ROS), leaf("a", S.SUCCEEDED, log=log), leaf("b", S.RUNNING, log=log))
get(n.setup()); get(n.tick()); get(n.shutdown()); get(n.setup())
del log[:]
get(n.tick())
expect(("a", "tick") in log, "the first child was not ticked: %s" % log)
''')

seed("s47-retry-reset-order", "C36", "nodes/decorators.py", [(
"""        self._retry_count = 0
        for child in self.children:
            return child.reset()
        return Ok(BTNodeState.IDLE)
""", """        for child in self.children:
            return child.reset()
        self._retry_count = 0
        return Ok(BTNodeState.IDLE)
""")],
"a Retry that used some of its retries when it is reset",
"the retries used before the reset are missing afterwards",
'''
from ros_bt_py.nodes.decorators import Retry
n = Retry(name="r", ros_node=ROS)
get(n.node_config.inputs["num_retries"].set_value(1))
build(n, leaf("a", S.FAILED))
get(n.setup())
expect(get(n.tick()) == S.RUNNING, "the first failure is retried")
get(n.reset())
expect(get(n.tick()) == S.RUNNING, "the first failure after a reset is retried")
''')

seed("s48-service-readiness-kept", "C22", "ros_nodes/service.py", [(
"""        if self._service_client.service_is_ready():
            self.loginfo(
                "Found""", """        if not self._seen_ready:
            self._seen_ready = self._service_client.service_is_ready()
        if self._seen_ready:
            self.loginfo(
                "Found"""), (
"""    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
        if not self.has_ros_node or self._service_client is None:
""", """    _seen_ready = False

    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
        if not self.has_ros_node or self._service_client is None:
""")],
"a service that was available when the utility was calculated before and is gone now",
"the node still reports that it can execute",
MK + '''
from ros_bt_py.ros_nodes.service import Service
n = node(Service, service_type=dt.RosServiceType(value=Ask, interface_id=1), wait_for_response_seconds=dt.FloatType(value=2.0, allow_dynamic=False),
         service_name=dt.RosServiceName(interface_id=1, is_static=False), a=field("int32"), q=field("string"))
get(n.setup())
put(n, service_name="/x", a=1, q="q")
get(n.tick())
expect(get(n.calculate_utility()).can_execute, "the service is available")
stubs.world().service_ready = lambda client: False
expect(not get(n.calculate_utility()).can_execute, "the node claims that it can execute without the service")
''')

seed("s49-as-result-first", "C37", "vendor/result/result.py", [(
"""            except exceptions as exc:
                return Err(exc)

        return wrapper
""", """            except exceptions[0] as exc:
                return Err(exc)

        return wrapper
""")],
"as_result with several exception types and a function that raises one behind the first",
"the exception escapes instead of becoming an error",
'''
from ros_bt_py.vendor.result import as_result
@as_result(KeyError, ValueError)
def f():
    raise ValueError("x")
try:
    r = f()
except ValueError:
    r = None
expect(r is not None and r.is_err(), "the exception escaped")
''')

seed("s50-result-equality", "C37", "vendor/result/result.py", [(
"""        return isinstance(other, Err) and self._value == other._value
""", """        return isinstance(other, (Ok, Err)) and self._value == other._value
""")],
"an error compared with a value that equals it",
"Err(x) == Ok(x)",
'''
expect(Err(1) == Err(1) and Err(1) != Err(2) and Ok(1) != Err(1), "comparison of alike results")
expect(not Err(S.FAILED) == Ok(S.FAILED), "an error equals a value")
''')

seed("s51-extra-input-unchecked", "C38", "node.py", [(
"""        for key, container in unset_inputs.items():
            if key not in self.node_config.inputs:
                raise NodeConfigError(
                    f"Input {key} is not available on this node."
                    f"Available inputs: {self.node_config.inputs.keys()}"
                )
            if not self.node_config.inputs[key].is_compatible(container):
""", """        for key, container in unset_inputs.items():
            if key not in self.node_config.inputs:
                raise NodeConfigError(
                    f"Input {key} is not available on this node."
                    f"Available inputs: {self.node_config.inputs.keys()}"
                )
            if not container.is_compatible(self.node_config.inputs[key]):
""")],
"a node with inputs that depend on an option (e.g. the fields of a message) given an input with wider limits than declared",
"the wider input is accepted and takes values that the node doesn't allow",
'''
@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class More(Script):
    def add_extra_inputs(self):
        return Ok({"x": dt.IntType(max_value=5)})
try:
    More(name="m", new_inputs={"x": dt.IntType(max_value=50)})
    made = True
except NodeConfigError:
    made = False
expect(not made, "an input with wider limits was accepted")
''')

seed("s52-second-base", "C38", "node.py", [(
"""        for base in node_class.__bases__:
""", """        for base in node_class.__bases__[:1]:
""")],
"a node class with two base classes that both declare inputs",
"the inputs of the second base class are missing",
'''
@define_bt_node(NodeConfig(inputs={"a": dt.IntType()}, outputs={}, max_children=0))
class A(Script):
    pass
@define_bt_node(NodeConfig(inputs={"b": dt.IntType()}, outputs={}, max_children=0))
class B(Leaf):
    pass
@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class C(A, B):
    pass
expect(set(C(name="c").node_config.inputs) == {"a", "b"}, "inputs %s" % set(C(name="c").node_config.inputs))
''')
