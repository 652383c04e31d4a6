T0 = "No stable test ever constructs or ticks a node: the 21 stable tests cover helper functions and the subtree manager's data structure only. "

p("C02", "Sequences execute their children in order until one does not succeed",
  "On every tick a Sequence executes its children strictly in order from the first one (a MemorySequence from the child that was RUNNING on the previous tick), stops at the first child that does not succeed, returns that child's result (SUCCEEDED if there is none or no child at all) and, if that result is final, stops every child after it. "
  "Once a sequence has returned SUCCEEDED or FAILED, all its children are reset before they are executed again and a MemorySequence starts over from the first child; the same holds after untick and reset, which leave no child running. "
  "A child's error is returned as an error and leaves the node BROKEN.",
  ["histories", "inputs"], "All histories of tick/untick/reset calls and all results (including errors) of the children, up to the stated number of calls and children.",
  T0 + "Integration tests sample a handful of result sequences; the guarantee is about every interleaving of child results and untick/reset calls.",
  ["nodes/sequence.py", "node.py"], [("Sequence/MemorySequence tick", "nodes/sequence.py Sequence._do_tick, MemorySequence._do_tick")], NOTE["flow"])

p("C03", "Fallbacks execute their children in order until one does not fail",
  "On every tick a Fallback executes its children strictly in order from the first one (a MemoryFallback from the child that was RUNNING on the previous tick), stops at the first child that does not fail, returns that child's result (FAILED if there is none or no child at all) and, if that result is final, stops every child after it. "
  "Once a fallback has returned SUCCEEDED or FAILED, all its children are reset before they are executed again and a MemoryFallback starts over from the first child; the same holds after untick and reset, which leave no child running. "
  "A child's error is returned as an error and leaves the node BROKEN.",
  ["histories", "inputs"], "All histories of tick/untick/reset calls and all results (including errors) of the children, up to the stated number of calls and children.",
  T0 + "Integration tests sample a handful of result sequences; the guarantee is about every interleaving of child results and untick/reset calls.",
  ["nodes/fallback.py", "node.py"], [("Fallback/MemoryFallback tick", "nodes/fallback.py Fallback._do_tick, MemoryFallback._do_tick")], NOTE["flow"])

p("C04", "Parallel nodes decide by counting their children's results",
  "On every tick a Parallel executes exactly those children that have not finished since the last result, returns SUCCEEDED once the needed number of children has succeeded, FAILED once that number can no longer be reached (ParallelFailureTolerance: once more children failed than are tolerated), and RUNNING otherwise; children still running when it returns a result are stopped. "
  "After a result, untick or reset the counting starts over with freshly reset children and no child keeps running. "
  "A node with fewer children than needed successes cannot be set up, and a child's error is returned as an error and leaves the node BROKEN.",
  ["histories", "inputs", "configurations"], "All thresholds, all child results (including errors) and all histories of tick/untick/reset calls up to the stated bounds.",
  T0 + "The decision depends on threshold, tolerance and the order in which any subset of children finishes; tests fix a few combinations.",
  ["nodes/parallel.py"], [("Parallel tick", "nodes/parallel.py Parallel._do_tick, ParallelFailureTolerance._do_tick")], NOTE["flow"])

p("C05", "Decorators map their child's result as documented",
  "IgnoreFailure, IgnoreSuccess, IgnoreRunning, UntilSuccess, Inverter, RepeatAlways, RepeatUntilFail and RepeatIfFail return their documented mapping of the child's result on every tick; Retry and Repeat (with or without resetting the child) return RUNNING while they have attempts left, count the attempts of the current run only, and forward the final result when exactly the configured number of additional attempts is used up. "
  "Watch unticks and re-executes its child exactly as documented when the watched value changes, and Optional behaves like its child if that can be executed and succeeds without it otherwise. "
  "A child's error is returned as an error, untick and reset reach the child, and a child that was reset by the decorator starts afresh.",
  ["histories", "inputs", "configurations"], "All child results, counter options and histories of tick/untick/reset up to the stated bounds.",
  T0 + "Counter and reset behaviour depends on the complete history of child results and interleaved untick/reset calls.",
  ["nodes/decorators.py"], [("decorators", "nodes/decorators.py")], NOTE["flow"])

p("C06", "Switch nodes execute exactly the selected child",
  "On every tick NameSwitch and EnumSwitch execute exactly the child that the selection value names (by child name, or by the name of the message constant with that value), forward its result and stop every other child. "
  "If no child matches they execute nothing, stop whatever was running and return FAILED. "
  "After a result the selected child is reset before it is executed again; untick and reset reach all children; a child's error leaves the node BROKEN.",
  ["histories", "inputs"], "All selection values (text/integers within the bounds), child results and histories of tick/untick/reset.",
  T0 + "Which children may still be running depends on the sequence of selections; tests use one or two fixed names.",
  ["nodes/fallback.py", "ros_nodes/enum_switch.py"], [("selection", "nodes/fallback.py NameSwitch._do_tick; ros_nodes/enum_switch.py EnumSwitch._do_tick")], NOTE["flow"])

p("C07", "Setup, untick, reset and shutdown reach every descendant",
  "For every inner node (flow control or decorator) a successful setup has set up every child, and a child's setup error is returned as an error and leaves the node BROKEN. "
  "A successful untick or reset leaves no descendant running, reset leaves every descendant IDLE, and an error of a descendant is reported instead of being swallowed. "
  "Shutdown is attempted on every descendant, even if the shutdown of some node on the way fails, and a failure is reported; every node of the library can be shut down whether it was set up or not, and set up afterwards.",
  ["histories", "fault_sequences"], "All inner node classes, all child results and all combinations of failing setup/untick/reset/shutdown calls in trees up to the stated size.",
  T0 + "Error propagation has to hold for every combination of failing children of every node class.",
  ["node.py", "nodes/decorators.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "ros_nodes/enum_switch.py", "ros_nodes/throttle.py", "ros_nodes/action.py", "ros_nodes/service.py", "ros_nodes/topic.py"],
  [("propagation", "node.py Node.setup/untick/reset/shutdown and the _do_* methods of all inner nodes")], NOTE["flow"])

p("C08", "Utility bounds enclose every execution they estimate",
  "Whenever a sequence, fallback, parallel, switch node or decorator reports a lower or upper cost bound for success or failure, the cost of every way to that result (the sum over the children that have to produce it, each within its own bounds) lies inside the bound, and if all children's bounds are known the bounds are known and attained. "
  "A node with a child that cannot be executed reports that it cannot be executed and reports no bounds; a parallel node with too few children reports an error. "
  "The calculation needs no prior setup.",
  ["inputs", "configurations"], "All costs, all combinations of known and unknown bounds, thresholds and ways to a result for up to the stated number of children.",
  T0 + "A wrong bound shows only for particular orderings of costs or particular missing bounds.",
  ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "ros_nodes/enum_switch.py", "node.py"],
  [("aggregation", "nodes/sequence.py calculate_utility_sequence; nodes/fallback.py calculate_utility_fallback; nodes/parallel.py _do_calculate_utility; node.py Decorator._do_calculate_utility")],
  "costs are integers 0..1000 evaluated in exact rational arithmetic (rounding of float sums is outside the claim)")

p("C01", "Nodes follow the life cycle protocol",
  "A node is executed, unticked or reset only between a successful setup and its shutdown; calls outside that window are refused without reaching the node's implementation, and setup is possible exactly for new and shut down nodes. "
  "Every call returns the state the node is in afterwards; errors, states that are no valid result of the call and ticks with an unset input are reported as errors, an error of the implementation leaves the node BROKEN. "
  "Setup clears dynamic inputs and outputs and keeps static inputs, reset clears outputs and keeps inputs, both mark every input as updated; a tick starts with unmarked outputs, afterwards exactly the written outputs are marked and no input is.",
  ["histories", "inputs"], "All histories of setup/tick/untick/reset/shutdown/input changes up to the stated length with every result (any state or error) of the implementation.",
  T0 + "The protocol concerns all orders of calls combined with every result of the implementation.",
  ["node.py"], [("life cycle", "node.py Node.setup, tick, untick, reset, shutdown")], NOTE["flow"])

p("C09", "Data containers hold only values that satisfy their declared constraints",
  "Every kind of input, output and option accepts exactly the values of its declared type within its limits (number range, text length, allowed values, URI form, element count and element type, interface kind); anything else is refused and leaves the previous value in place, and a static value that was just assigned is not overwritten. "
  "Stored values are isolated: changing a value after assigning or reading it does not change what the container holds. "
  "Defaults lie within the limits and reading a value as some type succeeds exactly if it has that type.",
  ["inputs", "configurations"], "All values and limits of every container class (integers full 64 bit range, IEEE doubles incl. NaN/inf, text and collections up to the stated length).",
  T0 + "Acceptance is a predicate over all values and limits; the boundary and special values (NaN, mixed element types, nested limits) are what samples miss.",
  ["data_types.py"], [("constraints", "data_types.py *.set_value, get_value, get_value_as")],
  "numbers are full-range bit-vectors/IEEE doubles; text, collections and histories are bounded (see evidence)")

p("C10", "A changed value stays marked as updated until the mark is cleared",
  "A container that was assigned a value different from its previous one reports an update until its mark is cleared, whatever else is assigned, refused or reset in between; without a change it reports none. "
  "It yields the last accepted value and is unset exactly if none was accepted since the last reset. "
  "A group of inputs reports an update exactly if one of its members does.",
  ["histories", "inputs"], "All histories of assigning equal, different and invalid values, clearing marks and resetting, up to the stated length, per container class.",
  T0 + "Whether a mark is lost depends on the order of assignments, refusals and clears.",
  ["data_types.py"], [("update marks", "data_types.py DataContainer.set_value, is_updated, set_updated, reset_updated, reset_value")],
  "values are solver variables; history length and collection sizes are bounded (see evidence)")

p("C11", "Types survive the round trip through their message form",
  "Reading the message form of any input or output type yields a type of the same kind with the same limits, element types, access rights and references, compatible with the original in both directions and with the same message form. "
  "The type used at run time has the same limits and allows exactly the access in use. "
  "A message that describes no valid type is reported as an error and nothing escapes as an exception.",
  ["inputs", "configurations"], "All limits, flags and nestings (up to the stated depth) of every container class, and arbitrary constraint texts and identifiers in messages.",
  T0 + "Limits are spread over several message fields per nesting level; losing one shows only for particular nestings or limits.",
  ["data_types.py"], [("message form", "data_types.py serialize_type, from_msg, get_iotype_for_msg, get_runtime_type")],
  "limits and flags are solver variables; nesting depth and text length are bounded (see evidence)")

p("C12", "Values survive the round trip through their text form",
  "Writing the value of any container as text and reading it back into a container of the same type yields an equal value and the same text, and leaves the original unchanged. "
  "Text that is no valid JSON, or encodes something the container must not hold, is refused with an error and leaves the previous value; nothing escapes as an exception.",
  ["inputs"], "All values within the stated bounds of every container class incl. nested lists, dicts and ROS messages, and a catalogue of malformed texts per class.",
  T0 + "The round trip has to hold for every value of every class, including empty, nested, non-ASCII and extreme ones.",
  ["data_types.py"], [("text form", "data_types.py serialize_value, deserialize_value and the per class _serialize_value, _deserialize_value")],
  "JSON encoding of symbolic values is modelled as lossless (json itself is trusted); floats, bytes and classes come from lists; malformed texts are a catalogue")

p("C13", "Compatible types deliver every value",
  "If two types are compatible, the target accepts every value the source may hold and then holds the same value. "
  "A source whose constraints are at least as narrow as those of the target is compatible with it. "
  "A static input is never compatible with a dynamic source, and references behave like the type they refer to.",
  ["inputs", "configurations"], "All pairs of kinds of types, all limits of both (numbers, lengths, allowed values, element types) and all values of the source.",
  T0 + "Compatibility is decided once when a wiring is made, but has to hold for every value delivered later.",
  ["data_types.py"], [("compatibility", "data_types.py is_compatible, get_runtime_type")],
  "limits and values are solver variables; allowed texts, collection sizes and nesting depth are bounded (see evidence)")

p("C14", "Written outputs arrive at every wired input and nowhere else",
  "When a tick changes an output, every input wired to it holds the new value afterwards, before any later node is ticked, and is marked as updated exactly if its own value changed; all other inputs stay unchanged. "
  "The same holds for data entering and leaving the tree, and the reported data of a wiring is that of its source, current exactly if the target holds it. "
  "A wiring that leads nowhere and a value the target refuses are reported as errors, the source is BROKEN and the target keeps its value; delivered collections are independent copies.",
  ["histories", "inputs", "configurations"], "All wirings, orders of ticks and written values for up to the stated number of nodes and ticks.",
  T0 + "Delivery depends on which outputs are written in which order relative to the ticks of the receivers.",
  ["data_flow_manager.py", "node.py"], [("delivery", "data_flow_manager.py push_outputs, push_incoming_data, get_wiring_data; node.py tick")], NOTE["flow"])

p("C15", "Edits keep the tree well-formed and do what they say",
  "After every editing service call the nodes form a forest whose parent and child links agree, nobody has more children than supported, and all wirings connect existing compatible outputs and inputs. "
  "A successful edit (add, remove, move, replace, morph, set options, wire, unwire, clear, rename, load, reload) changes exactly what it names: position, children, class, options and wirings are as requested and everything else is as before. "
  "Valid edits succeed and edits naming unknown nodes, unsupported children, cycles, unsupported options or impossible wirings are refused.",
  ["histories", "inputs"], "Every forest of up to four nodes (five thorough) with and without child limits, every argument of every service including unknown and malformed ids, loaded descriptions of three nodes with any ids and children, and short histories of edits.",
  T0 + "Edits break the tree only for particular shapes and arguments, e.g. replacing a node by its own descendant.",
  ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"], [("edits", "tree_edit_manager.py all services; node.py add_child, remove_child, move_child, from_msg")],
  "shape of the tree, ids and positions are forked on, option values are solver variables; size of the forest and number of edits are bounded (see evidence)")

p("C16", "Failed edits leave the tree unchanged",
  "An editing service call that reports failure says why and leaves every node (class, name, options, parent, order of children, state), all wirings and the name of the tree as they were. "
  "This holds for every way an edit can fail, including failures in the middle of its work. No edit answers by raising.",
  ["inputs", "histories"], "The same trees, arguments and histories as for C15, all edits but loading another tree.",
  T0 + "Only failures in the middle of an edit expose an incomplete rollback.",
  ["tree_edit_manager.py", "node.py"], [("rollback", "tree_edit_manager.py add_node_at_index, morph_node, set_options, move_node, replace_node, wire_data, unwire_data")],
  "shape of the tree, ids and positions are forked on, option values are solver variables; size of the forest and number of edits are bounded (see evidence)")

p("C17", "Trees are only edited while they are editable",
  "Every editing service refuses with a message and changes nothing unless the tree is editable, i.e. has not run since it was loaded or shut down. "
  "This includes requests arriving while nodes of the tree are set up, ticked or stopped. Once a tree is shut down successfully it can be edited again.",
  ["histories", "inputs"], "All editing services in every state of the tree and after any short sequence of execution commands.",
  T0 + "The guard has to be in front of every service in every state.",
  ["tree_exec_manager.py", "tree_edit_manager.py"], [("guard", "tree_exec_manager.py is_edit_service, control_execution")],
  "state, commands and services are decided over all combinations; the number of commands is bounded (see evidence)")

p("C18", "Execution commands do what they say in every state of the tree",
  "Each command either is refused with a message and changes nothing, or does exactly what it names: TICK_ONCE sets up if needed and ticks once, TICK_PERIODICALLY and TICK_UNTIL_RESULT start one ticking thread, STOP stops all nodes, RESET resets, SHUTDOWN stops, shuts down and makes the tree editable. "
  "Ticking trees accept only STOP and SHUTDOWN, trees in ERROR only SHUTDOWN; the answer holds the resulting state; a tree is TICKING exactly while one thread ticks it. "
  "After any history shutting down makes the tree editable again, provided the nodes can be shut down.",
  ["histories", "fault_sequences", "schedules"], "Every sequence of up to three commands (four thorough) with any number of periods up to two between them, any result of every node call and one (two) failing.",
  T0 + "Each command has to work from every state, including those only failures lead to.",
  ["tree_exec_manager.py"], [("commands", "tree_exec_manager.py control_execution, _control_execution_*, tick")],
  "commands, results of node calls and the number of periods are decided over all combinations; threads switch only between periods; history length is bounded (see evidence)")

p("C19", "The tick loop stops when told, ends at results and survives failures",
  "Once per period, with the requested frequency, the tree is ticked exactly once; no tick starts after STOP, a running tick is finished first, TICK_UNTIL_RESULT ends with the first result, and then no node is left running. "
  "If any node fails or raises during setup, tick or untick the tree ends in ERROR, is not ticked any more, reports the failure and can be shut down and run again. "
  "What is published (states, structure, frequency) is what the tree is like, and no requested or loaded frequency, including NaN, is an exception.",
  ["schedules", "fault_sequences", "inputs"], "STOP after any of five periods (eight thorough) or during any tick, a failure in any call of any of three nodes, ticks of any duration, any frequency.",
  T0 + "Stops and failures may come at any point of the loop.",
  ["tree_exec_manager.py"], [("tick loop", "tree_exec_manager.py tick, tick_report_exceptions, control_execution, publish_state, publish_structure")],
  "results, durations, frequencies and stopping points are solver variables; threads switch only between periods or at chosen points inside a tick; the number of periods is bounded (see evidence)")

p("C20", "Trees are saved inside storage folders, completely or not at all, and load again",
  "A save writes exactly the reported file inside the requested storage folder, overwrites and renames only when asked to, and after a full disk or the end of the process at any point the files that were there are unchanged. "
  "Every saved tree loads again; loading anything else, e.g. a missing or malformed file, ends with a reported error and an editable tree.",
  ["inputs", "crash_points", "histories"], "Paths of up to four segments (five thorough) with all flags and storage folders, a failure after any of several numbers of bytes, 37 kinds of files read in three ways.",
  T0 + "Escaping paths, failures in the middle of a write and malformed files are what nobody tries.",
  ["package_manager.py", "tree_exec_manager.py"], [("save", "package_manager.py save_tree_to_path, make_filepath_unique"), ("load", "tree_exec_manager.py load_tree_from_file, parse_tree_yaml, load_tree_from_path")],
  "flags are solver variables, path segments, failing sizes and file contents are forked on; the YAML parser and the file system are the real ones")

p("C21", "Timing nodes follow the clock",
  "Wait runs until its duration has elapsed since the first tick after setup or reset and succeeds from then on. "
  "Throttle doesn't tick a child that returned a result less than the interval ago but repeats that result, ThrottleSuccess fails instead of ticking a child that succeeded less than the interval ago; otherwise the child is ticked and its result returned. "
  "GetTimeNow outputs the time of the tick.",
  ["histories", "inputs"], "Any durations and any times between the operations of a history of up to four ticks, interruptions, resets and shutdowns (six thorough), any child results.",
  T0 + "Any tick may be a nanosecond before or after the end of an interval, after any interruption.",
  ["ros_nodes/wait.py", "ros_nodes/throttle.py", "ros_nodes/time.py"], [("timing", "ros_nodes/wait.py Wait, ros_nodes/throttle.py Throttle, ThrottleSuccess, ros_nodes/time.py GetTimeNow")],
  "times, durations and child results are solver variables over exact reals; what happens exactly at the end of a throttle interval and whether results survive a reset is left open")

p("C22", "Service nodes answer with the response to the current request, once per request",
  "A service node sends exactly one request per first tick and per change of its inputs, with the current inputs to the current service; it runs until the response to that request arrives and then succeeds with it as outputs, or fails after its timeout and not before. "
  "Requests that are replaced or interrupted are cancelled and late responses to them have no effect; without new inputs the result stays; no client outlives the node. "
  "WaitForService succeeds iff the service is available and fails only after its timeout; a service node reports that it can execute iff it has a client and the service is available.",
  ["histories", "schedules", "fault_sequences"], "Every sequence of up to five operations (six thorough): ticks, new inputs, responses to current or old requests, failing calls, interruptions, with any time between them.",
  T0 + "Responses may arrive at any time, also after the request was given up.",
  ["ros_nodes/service.py"], [("service calls", "ros_nodes/service.py ServiceBase, Service, WaitForService")],
  "input values, responses, times and timeouts are solver variables, operations are forked on; responses arrive between calls of the node, not during a tick")

p("C23", "Action nodes execute the current goal and leave none behind",
  "An action node sends one goal per first tick after setup, reset or untick and per change of its inputs, with the current inputs to the current action, after the previous goal was cancelled; in the end the newest inputs are executed if the server answers. "
  "It succeeds with the result as outputs iff that goal succeeds, fails iff it is rejected, aborted, cancelled or exceeds its timeout, when it is cancelled; feedback outputs are the latest of that goal. "
  "Once a node is interrupted, every goal of it that the server executes or accepts later is cancelled; a node reports that it can execute iff it has a client and its server is available.",
  ["histories", "schedules", "fault_sequences"], "Every sequence of three operations (four thorough) of 13 after each of 14 prefixes: ticks, new inputs, acceptance, rejection, results, feedback of current and old goals, interruptions, with any time between them.",
  T0 + "Answers may arrive in any order relative to interruptions and new inputs.",
  ["ros_nodes/action.py"], [("actions", "ros_nodes/action.py ActionBase, Action")],
  "input values, results, times and timeouts are solver variables, operations are forked on; answers arrive between calls of the node, not during a tick")

p("C24", "Topic nodes receive and publish exactly the current topic's messages",
  "A subscriber runs until a message of its current subscription arrives, then succeeds once with the latest one as output; the memory variant succeeds while the last message is recent and fails afterwards. "
  "A publisher publishes every new message once, to the current topic. There is at most one subscription or publisher, with the requested topic, type and quality of service, none after reset or shutdown; messages of destroyed subscriptions are ignored; subscribers can execute iff their topic is published.",
  ["histories", "schedules", "inputs"], "Every sequence of up to six ticks and messages, or four operations (five thorough) including new inputs, interruptions and messages arriving while or after a subscription is destroyed.",
  T0 + "Messages may arrive at any time, also while a subscription is destroyed.",
  ["ros_nodes/topic.py"], [("topics", "ros_nodes/topic.py TopicSubscriber, TopicMemorySubscriber, TopicPublisher")],
  "message contents, times, quality of service are solver variables, operations are forked on; the topic type is fixed")
p("C25", "Computing nodes output exactly the result of their operation or report an error",
  "Operation, UnaryOperation, Convert, RandomInt, StringConcatenation, GetFileExtension, Constant, PassthroughNode and the IO nodes output the value their operator, conversion or description defines for the current inputs and succeed; comparisons succeed iff they hold, CompareNewOnly runs until an input changes. "
  "A calculation without a result, or whose result doesn't fit the output type (division by zero, overflow, domain errors, unset inputs, empty ranges), is an error of the node, never an exception, and leaves the output unchanged.",
  ["inputs", "histories"], "Any 64-bit integers, finite floats (exact arithmetic) and short strings where the operator permits, lists of operands around the limits for all other operators; histories of up to four operations (six thorough).",
  T0 + "Every tree that computes depends on these nodes for all inputs, including those at the limits.",
  ["nodes/maths.py", "nodes/compare.py", "nodes/constant.py", "nodes/passthrough_node.py", "nodes/io.py", "nodes/random_number.py", "nodes/format.py", "node_config.py"],
  [("calculations", "nodes/maths.py Operation, UnaryOperation, Convert"), ("comparisons", "nodes/compare.py"), ("outputs that don't fit", "node_config.py NodeOutputMap.set_value")],
  "operands are solver variables where the operator is linear, chosen from lists otherwise; the random numbers are solver variables")
p("C26", "Container nodes read, change and iterate lists, dicts and messages faithfully",
  "Getters output the item, items or nested attribute, fail if it doesn't exist, pass on a child's result unless it succeeds and wait while inputs are unchanged (unless stale data are allowed); setters output a changed copy and never change their input; list questions answer correctly. "
  "IterateList ticks its child for every item in order, one tick after the item was output and only once the previous one succeeded; it succeeds after the last item, fails with its child and starts over with a new list or a reset.",
  ["histories", "inputs"], "Up to three ticks (five thorough) with changed inputs or interruptions before each; lists of up to three items, any integers, any results of the child.",
  T0 + "All values and all histories of changed lists matter.",
  ["nodes/getters.py", "nodes/setters.py", "nodes/list.py", "helpers.py"], [("getters", "nodes/getters.py"), ("setters", "nodes/setters.py"), ("iteration", "nodes/list.py IterateList")],
  "items and indices are solver variables, shapes of containers are forked on")
p("C27", "Format, file, parameter, constant and message nodes output exactly their source",
  "Formatted texts are those the format string describes; YAML files, ROS parameters and message constants are output as they are, with the documented default; messages are taken apart into all fields and put together from all fields without loss. "
  "A text that can't be formatted, a file that can't be found, read, parsed or isn't of the declared shape, a missing or unfitting parameter or field is reported (failure or error, with a message for files), never an exception, and isn't output; a file is loaded again after a reset or a new path.",
  ["inputs", "histories", "fault_sequences"], "19 format strings, 17 kinds of files and 12 of file names, two (three thorough) files or parameters in a row, any field values of two message types.",
  T0 + "The faults a file system or parameter server can present are many; each of them must not stop the tree.",
  ["nodes/format.py", "nodes/file.py", "ros_nodes/param.py", "ros_nodes/enum.py", "ros_nodes/message_converters.py"],
  [("texts", "nodes/format.py"), ("files", "nodes/file.py load_file"), ("messages", "ros_nodes/message_converters.py")],
  "field and parameter values are solver variables; files and format strings are chosen from lists")
p("C28", "A Subtree node behaves exactly like the tree of the file it loads",
  "Setting up, ticking, interrupting, resetting and shutting down a Subtree does the same calls to the same nodes, with the same data, as doing it to the tree of its file, and the Subtree's state and its outputs are those of that tree's root and outputs, at any nesting depth. "
  "Its inputs and outputs are exactly the tree's IO nodes with their types; values pushed in arrive before the tick and values put out are visible after it. A file that can't be loaded, or isn't one tree, makes creating the node fail.",
  ["programs", "histories", "inputs"], "Trees of four shapes nested up to three deep, histories of three operations (four thorough) with any results of the leaves, any 64-bit data.",
  T0 + "Reuse through subtrees is only safe if no history can tell a Subtree from its contents.",
  ["ros_nodes/subtree.py", "tree_exec_manager.py", "data_flow_manager.py"],
  [("delegation", "ros_nodes/subtree.py Subtree._do_*"), ("data in and out", "data_flow_manager.py push_incoming_data")],
  "results of leaves and data are solver variables; trees and operations are forked on")
p("C31", "What is published about subtrees is exactly the subtrees of the current tree",
  "After any history of edits, loads, commands and settings, the published structures are those of the tree and of every subtree at any depth, once each and referred to by the Subtree nodes; none of removed, replaced or refused nodes, none if subtree publishing is off. "
  "Published states and data are those of exactly these subtrees' nodes and wirings, all states of subtrees that were started are published, and data only if enabled.",
  ["histories"], "Every history of two edits or three commands or settings (one more thorough) from seven trees with subtrees, any results of the leaves.",
  T0 + "A user interface shows, and users debug, what these messages contain.",
  ["subtree_manager.py", "tree_exec_manager.py", "ros_nodes/subtree.py"],
  [("subtree registry", "subtree_manager.py SubtreeManager"), ("publishing", "tree_exec_manager.py publish_structure/publish_state/publish_data")],
  "results of leaves are solver variables; edits and commands are forked on")
p("C32", "Concurrent service calls: edits are atomic, commands and edits never mix",
  "Two edits called at once from two threads leave the tree, the responses and the structure published last as if called one after the other, and so do an edit and a command. "
  "Two commands called at once are both answered without an exception; a node is never operated on by two threads at once, at most one thread ticks the tree, the state of the manager says whether one does, and the tree can be shut down afterwards.",
  ["schedules"], "Every pair of 13 edits, of 8 commands from four situations, and of an edit and a command, with one preemption (two thorough) at every switch point.",
  T0 + "Services are served by a multi-threaded executor with reentrant callback groups.",
  ["tree_exec_manager.py", "tree_edit_manager.py"],
  [("edit lock", "tree_exec_manager.py is_edit_service"), ("commands", "tree_exec_manager.py TreeExecManager.control_execution"), ("tick thread", "tree_exec_manager.py TreeExecManager._tick_thread")],
  "where threads are preempted and the results of nodes are solver variables; calls are forked on")
p("C29", "Fields of ROS messages have data types that take exactly their values",
  "For every type a message field can have, the derived data type accepts exactly the values the field takes (integer widths, text and list bounds, exact array lengths, nested messages of exactly that type) and stores them unchanged. "
  "A message type has exactly the fields of its message; texts that are no field type are reported as an error.",
  ["inputs"], "Every primitive type, messages, sequences, bounded sequences and arrays of them; integers, numbers and text any value, lists up to one element more than allowed.",
  T0 + "Service, action and message nodes derive their inputs and outputs from it.",
  ["data_types.py"],
  [("field types", "data_types.py get_message_field_io_type"), ("fields", "data_types.py RosMessageType.get_element_fields")],
  "values are solver variables; types are forked on")
p("C33", "Diagnostics, log messages and published states tell what really happens",
  "While collecting is on, exactly the start and the end of every operation on every node are reported with its name, class, path and time; switching it, even in the middle of a tick, changes nothing else. "
  "Log messages are published if their level is enabled, with their tree and node. /diagnostics has the name and condition of the tree, and the state and structure published last are the current ones after every request.",
  ["histories"], "Trees of up to three nodes, up to three operations or requests (one more thorough), any results, collecting switched at any operation of a leaf.",
  T0 + "This is all users and monitoring see of a running tree.",
  ["debug_manager.py", "logging_manager.py", "tree_exec_manager.py"],
  [("node diagnostics", "debug_manager.py DebugManager"), ("logs", "logging_manager.py LoggingManager"), ("ROS diagnostics", "tree_exec_manager.py diagnostic_callback/set_diagnostics_name")],
  "results, switches, levels and texts are solver variables; requests are forked on")
p("C30", "The description of a tree, of a part of it or of a node is complete and exact",
  "A node made from the description of a node has the same class, name, id, inputs, outputs, types and option values, and a tree loaded from the description of a tree, after any edit, is that tree and behaves like it. "
  "A described part (get_subtree) has exactly the nodes below its root, exactly the wirings between them and the data wired across its border as public inputs and outputs; a generated subtree is one tree of the requested nodes and nodes above them only, wired as before. "
  "Describing changes nothing, and requests that can't be answered are refused with a message.",
  ["inputs", "histories"], "One node with any option values; every forest of three or four nodes with up to two wirings, after any of eight edits, every root and every set of nodes.",
  T0 + "Editor, saved files, subtrees and remote execution all rely on these descriptions.",
  ["node.py", "tree_edit_manager.py", "tree_exec_manager.py", "data_types.py"],
  [("nodes", "node.py Node.to_structure_msg/from_msg"), ("parts", "node.py Node.get_subtree_msg"), ("generated", "tree_edit_manager.py TreeEditManager.generate_subtree"), ("trees", "tree_exec_manager.py TreeExecManager.structure_to_msg")],
  "option values, frequencies and leaf results are solver variables; shapes, wirings, edits and requests are forked on")
p("C34", "Listings of files, message types, node classes and channels are complete and exact",
  "A listing of a storage folder or package has exactly its visible files and folders, each once with its own id, the id of the folder it is in and its type; it ends even if links lead back to folders above, and listings made at the same time don't disturb each other. "
  "The lists of packages, message types, node classes and channels have exactly the ones there are, with their fields, options, types, defaults, tags and documentation, and a node added as it is listed is as its class describes it. "
  "Unknown folders and packages and modules that can't be loaded, for whatever reason, are reported.",
  ["inputs", "schedules"], "Folders of two levels with any of nine files, folders, links and unreadable folders, a second listing at any step of a first; any prefixes, limits, defaults, names and numbers of listeners up to the stated sizes.",
  T0 + "Links and requests at the same time are what nobody tries; the editor shows nothing but these lists.",
  ["package_manager.py", "ros_helpers.py", "node.py"],
  [("folders", "package_manager.py PackageManager.path_to_dict"), ("lists", "package_manager.py publish_packages_list/publish_message_list/republish_lists"), ("node classes", "package_manager.py PackageManager.get_available_nodes; node.py load_node_module"), ("channels", "ros_helpers.py publish_message_channels")],
  "contents of folders, texts, limits and numbers are solver variables; kinds of requests and modules are forked on")
p("C35", "The tree node offers every service and starts with its default tree",
  "Every service of the node does what it is named after: edits, commands and queries end like the same request to the tree itself, and afterwards the current tree and state are the ones published last on their topics. "
  "Trees, states and lists are kept for those who listen later; diagnostics, channels and lists are repeated as configured. "
  "At startup the configured modules and the default tree are loaded and the configured command is executed as if requested, a default tree that can't be loaded isn't executed, and neither it nor a broken module prevents the start.",
  ["configurations", "histories"], "All 26 services, 15 edits before and after a run, three commands (four thorough) with any results, seven kinds of default trees with every command, four kinds of broken modules.",
  T0 + "Only integration tests that need a ROS installation ever start a node.",
  ["tree_node.py", "tree_exec_manager.py", "node.py"],
  [("services and topics", "tree_node.py TreeNode.init_publisher/init_package_manager/init_tree_manager/init_channels_publisher"), ("default tree", "tree_node.py TreeNode.load_default_tree"), ("shutdown", "tree_node.py TreeNode.shutdown")],
  "results of nodes, switches and levels are solver variables; services, commands and kinds of files are forked on")


p("C36", "A node that was reset or restarted behaves like a new one",
  "Whatever a node of the library did before: after a reset, or after a shutdown and a new setup, it behaves like a node that was just set up. "
  "Given the same inputs, times, children and answers, all later results, states, outputs, calls, messages and calls of children are the same. "
  "Exceptions are those that are documented: RepeatNoAutoReset keeps its count over a reset, and what a Throttle keeps over a reset is left open.",
  ["histories", "inputs"], "All library nodes except Subtree and file nodes, histories of two calls (three thorough) out of tick, untick, reset and restart with any inputs, then two calls (three thorough), two children per sequence and one per parallel node.",
  T0 + "A forgotten counter, flag or cached value only shows after a particular history.",
  ["node.py", "nodes/decorators.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/list.py", "nodes/getters.py", "nodes/setters.py", "ros_nodes/service.py", "ros_nodes/action.py", "ros_nodes/topic.py", "ros_nodes/wait.py", "ros_nodes/throttle.py"],
  [("reset and setup", "node.py Node.reset, Node.setup and the _do_reset, _do_setup, _do_untick, _do_shutdown of all node classes")],
  "values, times and child results are solver variables; operations of the history are forked on")
p("C37", "Results keep exactly one of value and error through every combination",
  "A result is either Ok with a value or Err with an error, and every query, pattern match, comparison and unwrapping tells the same; map, and_then, inspect and their counterparts for errors call their function exactly once for results of their kind and hand on results of the other kind unchanged. "
  "The do notation binds each value, returns the first error without evaluating what follows it, and otherwise the final result; other exceptions pass through. "
  "as_result turns exactly the given exceptions into errors and returned values into values; all of this also holds for the asynchronous variants.",
  ["programs", "inputs"], "All values, functions (any linear ones) and kinds of results in chains of up to three operations (four thorough) and do notations of up to four parts.",
  T0 + "All nodes and services report errors this way; a wrong combinator shows only for particular sequences of values and errors.",
  ["vendor/result/result.py"], [("results", "vendor/result/result.py Ok, Err, do, do_async, as_result, as_async_result")],
  "values, errors and the coefficients of the functions are solver variables; kinds and operations are forked on; coroutines wait for nothing")

p("C38", "Nodes have exactly the declared inputs and outputs, and share none of them",
  "A node class is registered iff its inputs, outputs and number of children fit those of its base classes and its name is new, and a node has the inputs and outputs of its class and of all base classes and the additional ones that depend on its options, each with the declared limits. "
  "Inputs given when a node is made replace declared ones iff they are known and their limits fit, and references follow the types chosen for that node. "
  "Whatever happens to a node changes neither other nodes of its class nor the class itself.",
  ["configurations", "histories", "inputs"], "Classes with up to two bases and any of two inputs and one output each, any limits of a given input, histories of three operations (four thorough) on two nodes with any values.",
  T0 + "Shared state and missing checks show only for particular combinations of classes, options and histories.",
  ["node.py", "node_config.py", "data_types.py"], [("node definition", "node.py define_bt_node, Node.__init__, Node.from_msg; node_config.py NodeConfig.extend, NodeConfig.copy; data_types.py is_compatible, ReferenceContainer.set_type_map")],
  "values and limits are solver variables, which keys a class declares is forked on")
