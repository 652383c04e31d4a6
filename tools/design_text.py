MISSED = {}
d("C01", "the protocol automaton of `Node` (which state each operation may start and end in, which `_do_*` it calls, what a result outside the allowed set means), with a probe node whose implementation returns any state or error; also every shipped leaf class through the same automaton.",
  "longer histories than stated; calls from several threads at once.")
d("C02", "a ten-line reference model of sequences: index to start at, first child not going on, children to stop, reset before reuse.", "more children or calls than stated; children that change the tree while ticked.")
d("C03", "the same model as C02 with SUCCEEDED and FAILED exchanged.", "as C02.")
d("C04", "counting of the children's results since the last own result; thresholds and tolerances are solver integers.", "more than the stated children and calls; thresholds beyond the child count are only checked for set-up.")
d("C05", "the documented result table of each decorator, and attempt counters of Retry/Repeat kept by the reference model.", "Watch with inputs that have no equality; more ticks than stated.")
d("C06", "the child whose name the input selects, computed independently from the symbolic input text or number.", "names longer than the stated alphabet and length.")
d("C07", "logs of calls on every descendant: each operation reaches each of them once, whatever fails on the way.", "deeper trees than stated.")
d("C08", "all executions of the node over its children's outcomes and costs, enumerated symbolically: every cost of every execution lies in the reported bounds.", "IEEE rounding (costs are exact reals); more children than stated.",
  "")
d("C09", "the declared limits, evaluated directly on the symbolic value.", "texts and collections longer than stated; values whose Python type has overloaded comparison.")
d("C10", "a boolean model of the update mark: set when the value differs, cleared by reset_updated/reset.", "longer histories than stated.")
d("C11", "limits, flags and behaviour (accepted values) of the container rebuilt from the message.", "nesting deeper than stated; malformed constraint texts other than the catalogue.")
d("C12", "the value itself (equality after serialize and deserialize), an error for malformed texts.", "numbers in JSON texts are chosen from lists where Python's `json` is C code; values below; deeper nestings.")
d("C13", "the semantics of compatibility: if `is_compatible` says yes then every value of the source is accepted by the target; for equal kinds also the converse.", "pairs of collection types nested deeper than stated.")
d("C14", "a map from wiring targets to the last value written to their source.", "more than three nodes and the stated ticks; data keys that contain a dot.")
d("C15", "`harness/edit.py` `invariant` (one parent each, no cycles, ids unique, wirings between existing compatible keys, adjacency consistent, published structure equal to the nodes) and, per service, a reference edit on a plain dict forest.",
  "bigger forests than stated (histories reach further); nodes whose constructor has side effects.")
d("C16", "a snapshot (`snap`) of everything observable before the edit; equality after a refused one.", "as C15; edits whose *roll back* step is made to fail by a node class that misbehaves on remove/add of children.")
d("C17", "the state machine of commands (model in C18) says when the tree is editable; edits are accepted or refused accordingly, also while a node of the tree is executing in another thread.", "preemption between two bytecodes of an edit (see C32).")
d("C18", "a reference model of `ControlTreeExecution`: answer, state of the tree, nodes called, per command and state.", "STOP when nothing runs, and what SETUP_AND_SHUTDOWN sets up, are left unspecified.")
d("C19", "the tick loop runs as a coroutine that yields at every sleep; the model counts periods, ticks and sleeps.", "real time; preemption elsewhere than at sleeps and node calls.")
d("C20", "the file system itself, in a scratch folder as user nobody: the set of files and their contents before and after; crash points by RLIMIT_FSIZE/SIGXFSZ after a chosen number of bytes.", "loss of data by the disk cache (the code does not fsync); concurrent processes.")
d("C21", "comparisons on the symbolic clock (exact reals on a 1/8 s grid).", "durations off the grid, where rounding of IEEE doubles may matter.")
d("C22", "the current request and, per future, whether it belongs to it.", "responses while a tick is executing; real middleware.")
d("C23", "the protocol of the current goal (accepted, executing, result, feedback, cancelled) kept by the model; goals left behind are counted in the stub's server.", "as C22.")
d("C24", "the last message of the current subscription.", "as C22.")
d("C25", "the operator itself, applied by the harness to the same operands (exact reals), the kind of error otherwise.", "float overflow and rounding; operands of power/shift outside the lists.")
d("C26", "Python indexing/copying done by the harness on the original value.", "longer lists; messages nested deeper than stated.")
d("C27", "texts, files and parameters known to the harness, with the documented default.", "format strings and files not in the lists (Python's `format` and YAML parser are C/third party code, so these are chosen, not symbolic).")
d("C28", "the same tree without Subtree nodes, executed next to it with the same leaf results.", "files that change while loaded; deeper nesting.")
d("C31", "the nodes and subtrees reachable from the manager, compared with the last published lists.", "messages between two edits; periodic ticks (C19).")
d("C32", "the results of the two sequential orders of the same code (linearizability); for commands, a log of which thread is inside which node.", "three threads at once; switches inside code between the switch points (calls of manager methods, locks, nodes, publishing); services other than edits and control_execution, except set_publish_subtrees.")
d("C29", "the ranges and lengths the IDL types have (written out, not taken from the code).", "infinite and NaN numbers, booleans in number fields, empty byte fields; whether a real generated message class agrees with the IDL.")
d("C33", "the operations the nodes themselves record, and the current state of the manager.", "operations that raise, the source position in log messages, the state published between a start command and the first tick, node states published last after a stop.")
d("C30", "the nodes, links, options and wirings of the live tree.", "the name of a described part; public inputs and outputs listed in a loaded file (nothing uses them); which of the nodes above a requested node a generated subtree contains beyond what makes it one tree.")
d("C34", "the files the check created, the registry of node classes and the channels and packages of the model.", "names of files (fixed), the order of entries, what is listed below a link to a folder above, message packages whose Python modules are missing, channels without a type.")
d("C35", "the same request to a tree without node, whose behaviour the other properties decide.", "parameters that violate their own description, queue depths, signals and the executor of main().")
d("C36", "a new node of the same class, given the same inputs, times, children and answers (differential).", "Subtree (C28) and file nodes (C27), answers to requests from before the reset (C22, C23), what a Throttle keeps over a reset.")
d("C37", "pairs of a kind and a value, on which the harness applies the same operations.", "the texts of errors (except the given message), coroutines that really wait, iterating a result outside of do.")
d("C38", "sets of declared keys and limits, and pictures (`picture`) of a node and of its class taken before another node is used.", "redefining a class while nodes of it exist; references in additional outputs; diamond shaped class hierarchies.")
TAIL = """
## Not applicable

None of the listed properties. What solver-based checking does *not* reach here, and is therefore not claimed: the JavaScript
user interface (`ros_bt_py_web_gui`), real DDS middleware behaviour, and true preemption inside one Python statement.

## Left unspecified on purpose

Behaviour for which neither documentation nor code comments fix what should happen; no check asserts either way: an empty YAML
list or dict as content of a file, RosParam of a parameter without a type, a tick of IterateList after FAILED without a reset,
the update flag of getters that is lost while the child is RUNNING, shift/power with huge operands, a move within the same full
parent, STOP when nothing runs, TopicPublisher republishing after its publisher is created anew, the time WaitForService has
waited before a success, the state of a Subtree relative to its root after a failed shutdown.

## False alarms met on the way

* C31 first compared state messages published *before* the edit being judged; it now only judges messages published since.
* C28's data nodes used unrestricted IntType outputs wired to int64 inputs, which the tree correctly refuses.

## Robustness

Harnesses call only public operations and compare states, so renaming helpers, extracting functions, reordering independent
statements or rewriting loops does not change their verdict. Constructs the engine cannot encode (a builtin applied to a proxy
that has no symbolic counterpart) do not abort a run: that path is skipped, run with up to ten concrete guesses instead
(`GuessCtx`, which can only *find* violations, each replayed), and the run ends with exit code 2 unless a violation was found –
never with 0. A counterexample is only printed after it was reproduced on the plain modules.
"""
