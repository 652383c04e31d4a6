NODE = '''
import os, shutil, sys, tempfile, types
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
class Params:
    def __init__(self, **kw):
        self.node_modules, self.tree_storage_paths, self.diagnostics_frequency_hz = [], [D], 1.0
        self.default_tree = types.SimpleNamespace(load_default_tree=True, load_default_tree_permissive=False, tick_frequency_hz=10.0, tree_path="", control_command=2)
        self.default_tree.__dict__.update(kw)
mod = types.ModuleType("ros_bt_py.parameters")
mod.tree_node_parameters = types.SimpleNamespace(Params=Params)
sys.modules["ros_bt_py.parameters"] = mod
import rosidl_runtime_py
from ros_bt_py.tree_node import TreeNode
SERVICES = {}
class Net(TreeNode):
    def create_service(self, t, name, callback=None, **kw):
        SERVICES[name] = callback
        return super().create_service(t, name, callback=callback, **kw)
def start(**kw):
    p = Params(**kw)
    n = Net(node_name="n")
    n.init_publisher(); n.init_package_manager(params=p); n.init_tree_manager(params=p); n.load_default_tree(params=p); n.init_channels_publisher()
    return n
def msg(cls, i, kids=(), inputs=()):
    return NodeStructure(module=cls.__module__, node_class=cls.__name__, name="n%d" % i, node_id=str(uuid.UUID(int=i)), child_ids=[str(uuid.UUID(int=c)) for c in kids], inputs=list(inputs), outputs=[], max_children=-1)
def tree(name, nodes):
    with open(os.path.join(D, name), "w") as f:
        f.write("version: 1.0.0\\n" + rosidl_runtime_py.message_to_yaml(TreeStructure(name=name, nodes=list(nodes), tick_frequency_hz=20.0)))
    return "file://%s/%s" % (D, name)
'''
PM = '''
import json, os, shutil, tempfile
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces.srv import GetFolderStructure, GetAvailableNodes
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
class Pub:
    def __init__(self, n=1):
        self.got, self.n = [], n
    def publish(self, m):
        self.got.append(m)
    def get_subscription_count(self):
        return self.n
'''

seed("s40-leaf-children-listed", "C34", "package_manager.py", [(
"""                max_children = -1 if max_children is None else max_children
""", """                max_children = max_children or -1
""")],
"a listed leaf node (a node class that supports no children)",
"leaf nodes are listed as supporting any number of children",
PM + '''
r = PackageManager.get_available_nodes(GetAvailableNodes.Request(node_modules=["ros_bt_py.nodes.sequence"]), GetAvailableNodes.Response())
c = {x.node_class: x.max_children for x in r.available_nodes}
expect(c["Script"] == 0 and c["Sequence"] == -1, "listed: %s" % c)
''')

seed("s41-hidden-inside", "C34", "package_manager.py", [(
"""                        show_hidden=show_hidden,
                        parent=d["item_id"],
""", """                        show_hidden=show_hidden and not f.startswith("."),
                        parent=d["item_id"],
""")],
"hidden files requested, and a hidden file inside of a hidden folder",
"it isn't listed",
PM + '''
os.makedirs(D + "/.a/.b")
pm = PackageManager(tree_storage_directory_paths=[D])
r = pm.get_folder_structure(GetFolderStructure.Request(storage_folder=D, show_hidden=True), GetFolderStructure.Response())
d = json.loads(r.storage_folder_structure)
expect([c["name"] for c in d["children"][0]["children"]] == [".b"], "listed: %s" % d)
''')

seed("s42-republish-packages", "C34", "package_manager.py", [(
"""        if (
            self.packages_list_pub is not None
            and self.packages is not None
            and self.packages_list_pub.get_subscription_count() > 0
        ):
""", """        if (
            self.packages_list_pub is not None
            and self.packages
            and self.packages.packages
            and self.packages_list_pub.get_subscription_count() > self.last_count
        ):
"""), (
"""        self.message_types = None
        self.packages = None
""", """        self.message_types = None
        self.packages = None
        self.last_count = 0
"""), (
"""            self.packages_list_pub.publish(self.packages)
""", """            self.packages_list_pub.publish(self.packages)
        if self.packages_list_pub is not None:
            self.last_count = self.packages_list_pub.get_subscription_count()
""")],
"a listener that is replaced by another one between two repetitions (the number of listeners stays the same)",
"the new one never gets the list of packages",
PM + '''
from env import stubs
stubs.world().packages = {"p": "/home/x"}
pub = Pub()
pm = PackageManager(tree_storage_directory_paths=[], publish_packages_list_callback=pub)
pm.publish_packages_list()
pm.republish_lists()
pm.republish_lists()
expect(len(pub.got) == 3, "published %d times" % len(pub.got))
''')

seed("s43-default-command", "C35", "tree_node.py", [(
"""                    command=params.default_tree.control_command,
""", """                    command=params.default_tree.control_command
                    or ControlTreeExecution.Request.TICK_PERIODICALLY,
""")],
"a default tree with control_command 0 (DO_NOTHING)",
"the default tree is executed although it should only be loaded",
NODE + '''
u = tree("t.yaml", [msg(Script, 1)])
n = start(tree_path=u, control_command=0)
expect(len(n.tree_manager.nodes) == 1 and n.tree_manager.state == TreeState.EDITABLE, "the tree is %s" % n.tree_manager.state)
''')

seed("s44-default-frequency", "C35", "tree_exec_manager.py", [(
"""            if request.tick_frequency_hz != 0:
""", """            if request.tick_frequency_hz != 0 and not self._tree_structure.path:
""")],
"a tree loaded from a file and a command with its own frequency",
"the tree keeps its own frequency instead of the requested one",
NODE + '''
u = tree("t.yaml", [msg(Script, 1)])
n = start(tree_path=u, control_command=2, tick_frequency_hz=5.0)
expect(n.tree_manager.tick_frequency_hz == 5.0, "frequency %s" % n.tree_manager.tick_frequency_hz)
''')

seed("s45-state-volatile", "C35", "tree_node.py", [(
"""                durability=QoSDurabilityPolicy.TRANSIENT_LOCAL,
""", """                durability=QoSDurabilityPolicy.VOLATILE,
""", 1)],
"somebody who starts listening to the state of the tree after it was published last",
"gets no state until it changes again",
NODE + '''
from env import stubs
start(load_default_tree=False)
q = {p.topic: str(getattr(p.qos_profile, "durability", "")) for p in stubs.world().publishers}
expect("TRANSIENT_LOCAL" in q["~/tree_state_list"], "durability %s" % q)
''')
