BADVAL = ["add_node", "add_node_at_index", "morph_node", "set_options"]
FINDINGS = [
    {"id": "static-value-" + op, "property": "C15", "harness": {"a": "add/*", "m": "morph/*", "s": "options/*"}[op[0]],
     "message": op + ": option values the input does not allow are refused",
     "what": op + " with a value an input does not allow (e.g. 9 for an input limited to 5, or no number at all) succeeds and silently drops the value "
             "(Node.from_msg ignores the result of deserialize_value; refusing it would also refuse three of the example trees in ros_bt_py/trees, which carry such values)"}
    for op in BADVAL] + [
    {"id": "format-texts-" + h[:-5], "property": "C27", "harness": h, "message": "a dict of texts can be formatted",
     "what": node + " refuses a dict of texts, e.g. the one in its own documentation: DictType() without element type accepts only integers, although data_types.py promises that it accepts all values "
             "(element types are part of the serialized tree files and of the editor, and tree files with dicts of integers exist, so changing it isn't small)"}
    for h, node in (("format/text", "FormatString"), ("formatlist/text", "FormatStringList"))]
FIXED = [
    ("C03", "fix: MemoryFallback forgets the running child once it returned a result",
     "MemoryFallback, children RUNNING then SUCCEEDED on child 1: the next run started at child 1 instead of child 0"),
    ("C06", "fix: switch nodes stop a running child when no child matches the selection",
     "NameSwitch/EnumSwitch: child RUNNING, then a selection without matching child returned FAILED but left the child running"),
    ("C07", "fix: shut down the children of a node even if its own shutdown fails",
     "a node whose own shutdown failed never shut down its children"),
    ("C08", "fix: parallel nodes can calculate their utility before setup",
     "Parallel/ParallelFailureTolerance calculate_utility before setup raised AttributeError"),
    ("C08", "fix: ParallelFailureTolerance utility uses its failure tolerance",
     "ParallelFailureTolerance computed its failure bounds for N-needed+1 instead of tolerate+1 failures"),
    ("C08", "fix: parallel utility has no upper bound if any child has none",
     "Parallel with needed=1, child A ub=5, child B without ub: reported upper bound 5 although B may cost anything"),
    ("C08", "fix: switch nodes bound their utility by their cheapest and most expensive child",
     "NameSwitch children A success cost 2..2, B 0..2: reported lower bound 2 although selecting B costs 0; EnumSwitch reported 0..0"),
    ("C09", "fix: numeric types reject NaN, which is within no limits", "FloatType(min_value=0.0,max_value=1.0) accepted NaN"),
    ("C09", "fix: adjust the default of numeric types to any limits", "IntType(min_value=5) static: default 0 lay outside the limits"),
    ("C10", "fix: setting an unchanged value keeps a pending update flag", "assigning 1 then 1 again before the mark was cleared lost the update"),
    ("C11", "fix: serialize nested list and dict types from the outside in", "ListType(DictType(IntType)) was read back with the nesting reversed"),
    ("C11", "fix: access rights of element types don't affect compatibility", "a list type read back from its message was incompatible with the original because element access flags differ"),
    ("C11", "fix: report messages with malformed type constraints as error", "NodeDataType with constraint text 'x' raised ValueError instead of Err"),
    ("C12", "fix: dict types can serialize values that aren't strings", "DictType of int {'a': 1}: serialize_value raised TypeCheckError"),
    ("C12", "fix: number sequences of ROS messages can be stored and serialized", "message with an int16[] field: serialize_value raised TypeCheckError for array.array"),
    ("C12", "fix: report text that can't be deserialized as error", "deserialize_value('{') raised JSONDecodeError, '5' into a list raised TypeCheckError"),
    ("C13", "fix: a string type is compatible with types that allow fewer values", "StringType target valid_values ['a'] was 'compatible' with source ['b','a'], and refused its value 'b'"),
    ("C14", "fix: report wirings from unknown nodes as error", "DataFlowManager.initialize raised KeyError for a wiring whose source node doesn't exist"),
    ("C16", "fix: remove a node from the tree again if it can't be added to its parent", "add_node below a leaf failed but left the new node in the tree"),
    ("C15", "fix: add the requested children to an added node", "add_node with child_ids reported success without adding the children"),
    ("C15", "fix: don't morph a node into one that doesn't support its children", "morphing a node with 2 children into a decorator or leaf succeeded and lost the children"),
    ("C15", "fix: don't move a node into itself", "move_node of a node below itself or below its own descendant made a cycle"),
    ("C15", "fix: replace nodes by their descendants and refuse to replace them by their ancestors", "replace_node of a node by its grandchild or its grandparent left cycles and lost nodes"),
    ("C15", "fix: unwiring the same data twice in one request doesn't raise", "unwire_data with the same wiring twice in the request raised ValueError out of the service"),
    ("C15", "fix: reloading a tree keeps its name and wirings", "reload_tree of an edited tree emptied the remembered wirings: the tree came back without wirings"),
    ("C15", "fix: report unknown children when loading a tree as error", "load_tree with a child id of no node raised KeyError"),
    ("C15", "fix: looking for cycles ends for nodes below a cycle", "add_node with its own parent and another used node as children never returned"),
    ("C18", "fix: stopping a tree that waits for a tick leaves it idle", "STOP after TICK_ONCE answered IDLE (or ERROR) but the tree stayed WAITING_FOR_TICK"),
    ("C19", "fix: exceptions raised while ticking leave the tree in error", "a node raising in setup, tick or untick killed the tick thread, the tree stayed TICKING"),
    ("C19", "fix: don't tick a tree with wirings that can't be initialized", "a wiring from an unknown node was ignored when ticking started"),
    ("C19", "fix: tick with the default frequency if an invalid one is requested", "loading a tree or ticking with frequency -1 or NaN raised ValueError out of the service, the tree stayed TICKING"),
    ("C19", "fix: report the tick frequency in Hz and warn if ticks take too long", "the published tick frequency was the mean tick duration times 1e18, the warning was given for fast ticks"),
    ("C20", "fix: loading malformed tree files reports an error instead of hanging or raising", "load_tree_from_path of an empty file or one without nodes never returned, of malformed YAML, binary data or unknown packages raised"),
    ("C20", "fix: don't save trees outside of the storage folder", "save_tree with filepath '../x.yaml' or an absolute path wrote outside of the storage folder"),
    ("C20", "fix: a failed save keeps the existing tree file", "a full disk during an overwriting save left a truncated tree file"),
    ("C21", "fix: ThrottleSuccess returns the result of its child", "ThrottleSuccess compared Ok(SUCCEEDED) with SUCCEEDED: it always failed and never throttled"),
    ("C23", "fix: action nodes have outputs for the feedback fields", "the feedback outputs had names and types of the result fields, feedback was dropped"),
    ("C23", "fix: send the goal again after an action node was interrupted", "tick, untick, tick sent None as goal"),
    ("C23", "fix: an action node fails if its goal is rejected", "a rejected goal (handle with accepted=False) was waited for and its empty result taken as success"),
    ("C23", "fix: an action node fails if its goal is aborted or canceled by the server", "a result with status ABORTED was a success"),
    ("C23", "fix: new inputs while an action goal waits for acceptance don't break the node", "an input update before the goal was accepted broke the node (no handle to cancel)"),
    ("C23", "fix: interrupting an action node always cancels its goal", "untick before acceptance, or between timeout and cancel request, left the goal running on the server"),
    ("C23", "fix: an interrupted action node uses the new action name", "after a new action name and untick the goal was sent to the old action"),
    ("C23", "fix: ignore feedback of goals an action node no longer executes", "late feedback of an old goal was put out as that of the new one"),
    ("C24", "fix: topic subscribers ignore messages of destroyed subscriptions", "a message of the old topic arriving while or after its subscription was destroyed was put out as message of the new topic"),
    ("C24", "fix: topic subscribers can execute if their topic is published", "utility of subscribers compared the type's name with its class and misspelled has_lower_bound_failure"),
    ("C25", "fix: report unfitting output values of a node as an error",
     "an output value of the wrong type (e.g. Operation ** with a complex result, a text attribute read by GetAttr as int, a text in a YamlList of int) raised TypeCheckError out of the tick"),
    ("C25", "fix: make the Convert node usable", "Convert: setup always failed (input 'clamp' doesn't exist, types are no Python types)"),
    ("C25", "fix: report calculations without a result as an error", "Operation 1 / 0 raised ZeroDivisionError, UnaryOperation sqrt of -1 raised ValueError out of the tick"),
    ("C26", "fix: make the SetAttr node usable", "SetAttr: every tick was an error (input 'value' doesn't exist); an attribute that doesn't exist would have raised AttributeError"),
    ("C27", "fix: get the format strings of FormatStringList as a list", "FormatStringList: every tick was an exception or failed (isinstance with list[str])"),
    ("C27", "fix: apply the default conversions in format strings", "FormatString '{name!r}' wasn't converted"),
    ("C27", "fix: check the type of the constants in EnumFields", "EnumFields couldn't be created for any message with constants"),
    ("C27", "fix: report all files that can't be loaded as a failure", "YamlList of a file that isn't UTF-8, contains an impossible date or belongs to an unknown package raised out of the tick"),
    ("C31", "fix: publish the subtrees of the tree, not those of replaced or refused nodes", "the structure of a Subtree morphed into another node, or refused by add_node, was published for good"),
    ("C31", "fix: don't keep publishing the state of a replaced subtree", "after changing the path of a Subtree that had been run, the states of the old file's tree were published"),
    ("C31", "fix: keep publishing subtrees after SETUP_AND_SHUTDOWN", "no subtree was published any more after SETUP_AND_SHUTDOWN"),
    ("C15", "fix: add_node tells the id of the new node", "add_node's response had no node_id"),
    ("C32", "fix: check and publish while holding the lock for edits", "an edit could be made after the tree had been started meanwhile, and the structure published last could be outdated"),
    ("C32", "fix: execute commands one at a time and not during edits", "two commands at once could tick a node from two threads or tick a tree that was being edited"),
    ("C32", "fix: don't start a tick thread again that has just ended", "a command just after the end of ticking raised RuntimeError (threads can only be started once)"),
    ("C32", "fix: don't lose results or stop requests at the end of a tick", "STOP at the end of a tick left the state at STOP_REQUESTED for good or was answered with an error"),
    ("C29", "fix: don't take messages of packages like string_msgs for strings", "a field of type string_msgs/Label was taken for a string"),
    ("C33", "fix: report the start of setup, untick, reset and shutdown", "the report of the start of these operations had no state"),
    ("C33", "fix: allow to collect diagnostics from the middle of a tick on", "switching collecting on during a tick ended the tick with a KeyError"),
    ("C33", "fix: publish diagnostics under the name of the tree", "/diagnostics never had a name (it was only set without a publisher)"),
    ("C30", "fix: report the wirings of a subtree", "get_subtree reported no wirings and no public inputs and outputs"),
    ("C30", "fix: generate subtrees of the current tree", "generate_subtree worked on the tree as last published: without publishing, or before, it returned an empty or an old tree"),
    ("C34", "fix: number the items of every folder listing on their own", "a folder listing made while another one is made (services are reentrant): items of the first got ids that were already used"),
    ("C34", "fix: don't descend into links to parent folders when listing folders", "a storage folder with two links to itself: the listing has 2^40 items and never ends"),
    ("C34", "fix: list available nodes while others are being loaded", "get_available_nodes while add_node loads a module: RuntimeError dictionary changed size during iteration"),
    ("C34", "fix: report node modules that raise any exception when they are loaded", "get_available_nodes or add_node with a module that has a syntax error: SyntaxError escaped from the service, which ends the tree node; as node_modules parameter it prevented the start"),
    ("C15", "fix: don't load trees with several nodes of the same id", "load_tree with two nodes of the same id succeeded and silently dropped the first"),
    ("C15", "fix: don't load trees whose nodes have several parents or form cycles", "load_tree with n0->n1->n2->n1 succeeded; ticking it recursed without end. A child of two nodes kept only one of them as parent"),
    ("C07", "fix: shut down an Action that has not been set up", "a Sequence whose first child fails its setup, with an Action behind it: shutdown raised AttributeError"),
    ("C07", "fix: shut down a WaitForService that has not been set up", "the same with a WaitForService"),
    ("C07", "fix: shut down a TopicPublisher that has not been set up", "the same with a TopicPublisher"),
]
