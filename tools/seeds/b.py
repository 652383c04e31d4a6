seed("s06-setup-keeps-output", "C01", "node.py", [(
"""            for container in self.node_config.outputs.values():
                container.reset_value()
                container.reset_updated()

            match self._do_setup():
""", """            for container in self.node_config.outputs.values():
                if container.is_updated():
                    container.reset_value()
                container.reset_updated()

            match self._do_setup():
""")],
"an output written in an earlier tick than the last one, then shutdown and a second setup",
"outputs keep values of the previous life after setup",
'''
@define_bt_node(NodeConfig(inputs={}, outputs={"o": dt.IntType()}, max_children=0))
class Out(Script):
    k = 0
    def _do_tick(self):
        self.k += 1
        if self.k == 1:
            self.outputs.set_value("o", 7)
        return Ok(S.RUNNING)
n = Out(name="o", ros_node=ROS)
get(n.setup()); get(n.tick()); get(n.tick()); get(n.shutdown())
get(n.setup())
expect(not n.node_config.outputs["o"].has_value(), "the output still holds the value of the previous life")
''')

seed("s07-shutdown-stops-early", "C07", "node.py", [(
"""            for child in self.children:
                match child.shutdown():
                    case Err(e):
""", """            for child in self.children:
                if child.state == BTNodeState.BROKEN and not child.children:
                    continue
                match child.shutdown():
                    case Err(e):
""")],
"a leaf that became BROKEN before its parent is shut down",
"broken leaves are never shut down",
'''
from ros_bt_py.nodes.sequence import Sequence
log = []
a = leaf("a", "ERR", log=log)
n = build(Sequence(name="m", ros_node=ROS), a)
get(n.setup()); n.tick(); n.shutdown()
expect(("a", "shutdown") in log, "the broken child was not shut down")
''')

seed("s08-string-limit-bytes", "C09", "data_types.py", [(
"""        if self.strict_length and len(value) < self.max_length:
            return Err(
""", """        if self.strict_length and 0 < len(value) < self.max_length:
            return Err(
""")],
"a strict length list or dict that is given an empty value",
"an empty list is accepted where exactly N elements are required",
'''
c = dt.ListType(element_type=dt.IntType(), max_length=2, strict_length=True, is_static=False)
expect(c.set_value([1, 2]).is_ok(), "exact length")
expect(c.set_value([1]).is_err(), "too short")
expect(c.set_value([]).is_err(), "an empty list was accepted although two elements are required")
''')

seed("s09-get-alias", "C09", "data_types.py", [(
"""            return Err(None)
        return Ok(deepcopy(self._value))
""", """            return Err(None)
        if isinstance(self._value, dict):
            return Ok(dict(self._value))
        return Ok(deepcopy(self._value))
""")],
"a dict whose values are mutable themselves, changed after it was read",
"changing a nested value that was read from an input changes the stored value",
'''
c = dt.DictType(element_type=dt.ListType(element_type=dt.IntType()), is_static=False)
get(c.set_value({"a": [1]}))
get(c.get_value())["a"].append(2)
expect(get(c.get_value()) == {"a": [1]}, "the stored value changed")
''')

seed("s10-reset-value-mark", "C10", "data_types.py", [(
"""    def reset_value(self):
        if not self.is_static:
            self._value = None
""", """    def reset_value(self):
        if not self.is_static:
            self._value = None
            self._updated = False
""")],
"a container that is reset after a change that nobody processed yet",
"the pending update mark is lost when the value is reset",
'''
c = dt.IntType(is_static=False)
get(c.set_value(3))
c.reset_value()
expect(c.is_updated(), "the update mark was lost")
''')

seed("s11-nested-strict", "C11", "data_types.py", [(
"""        inner_msg.iterable_strict_length = msg.iterable_strict_length[1:]  # type: ignore
""", """        inner_msg.iterable_strict_length = msg.iterable_strict_length[1:] or [False]  # type: ignore
        if len(inner_msg.iterable_strict_length) > len(inner_msg.value_type_identifier):
            inner_msg.iterable_strict_length = msg.iterable_strict_length[-1:]  # type: ignore
        elif any(msg.iterable_strict_length):
            inner_msg.iterable_strict_length = [True] * len(inner_msg.value_type_identifier)  # type: ignore
""")],
"a nested list whose outer length is strict while the inner one is not",
"the inner lists become strict after the round trip through a message",
'''
c = dt.ListType(element_type=dt.ListType(element_type=dt.IntType(), max_length=3), max_length=1, strict_length=True)
d = get(dt.get_iotype_for_msg(c.serialize_type()))
expect(d.strict_length and not d._element_type.strict_length, "inner strictness changed")
''')

seed("s12-bytes-hex", "C12", "data_types.py", [(
"""        try:
            return Ok(bytes.fromhex(ser_value))
""", """        try:
            return Ok(bytes.fromhex(ser_value.strip("0") if len(ser_value) > 2 else ser_value))
""")],
"bytes with leading or trailing zero nibbles and more than one byte",
"bytes are changed or refused when they are read back from text",
'''
c = dt.BytesType(max_length=4, is_static=False)
get(c.set_value(bytes([0, 17])))
d = dt.BytesType(max_length=4, is_static=False)
expect(d.deserialize_value(c.serialize_value()).is_ok(), "refused its own text")
expect(get(d.get_value()) == bytes([0, 17]), "bytes differ after the round trip")
''')
