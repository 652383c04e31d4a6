seed("s01-memseq-untick", "C02", "nodes/sequence.py", [(
"""        # TODO Should we reset this on untick?
        self.last_running_child = 0
""", """        # The memory survives until the sequence produced a result
""")],
"a MemorySequence whose later child is RUNNING, then untick, then another tick",
"after untick the sequence continues at the child that was running instead of starting over with its first child",
'''
from ros_bt_py.nodes.sequence import MemorySequence
log = []
a, b = leaf("a", S.SUCCEEDED, log=log), leaf("b", S.RUNNING, S.SUCCEEDED, log=log)
n = build(MemorySequence(name="m", ros_node=ROS), a, b)
get(n.setup()); get(n.tick()); get(n.untick())
log.clear()
get(n.tick())
expect(("a", "tick") in log, "the first child is not executed after an untick")
''')

seed("s02-fallback-late-untick", "C03", "nodes/fallback.py", [(
"""                if state == BTNodeState.SUCCEEDED:
                    # untick all children after the one that triggered this
                    # condition
                    for untick_child in self.children[index + 1 :]:
                        match""", """                if state == BTNodeState.SUCCEEDED:
                    # untick all children after the one that triggered this
                    # condition
                    for untick_child in self.children[index + 1 : -1 if index == 0 else None]:
                        match""")],
"a later child is RUNNING while on the next tick the very first child succeeds",
"the running later child is not stopped when the first child already succeeds",
'''
from ros_bt_py.nodes.fallback import Fallback
a, b = leaf("a", S.FAILED, S.SUCCEEDED), leaf("b", S.RUNNING)
n = build(Fallback(name="m", ros_node=ROS), a, b)
get(n.setup())
expect(get(n.tick()) == S.RUNNING, "setup of the demo")
expect(get(n.tick()) == S.SUCCEEDED, "result")
expect(b.state != S.RUNNING, "child b is still running after the fallback succeeded")
''')

seed("s03-parallel-stale-result", "C04", "nodes/parallel.py", [(
"""            if child.state not in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
                match child.tick():
                    case Err(e):
                        return Err(e)
                    case Ok(_):
                        pass
            if child.state == BTNodeState.SUCCEEDED:
                successes += 1
            if child.state == BTNodeState.FAILED:
                failures += 1
        if successes >= self._needed_successes:
            # untick all running children
            for child in self.children:
                if child.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
                    continue
                match child.untick():
                    case Err(e):
                        return Err(e)
                    case Ok(_):
                        pass
            return Ok(BTNodeState.SUCCEEDED)
        elif failures > self._tolerate_failures:
""", """            if child.state not in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
                match child.tick():
                    case Err(e):
                        return Err(e)
                    case Ok(_):
                        pass
            if child.state == BTNodeState.SUCCEEDED:
                successes += 1
            if child.state == BTNodeState.FAILED:
                failures += 1
        if successes >= self._needed_successes:
            # untick all running children
            for child in self.children:
                if child.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
                    continue
                match child.untick():
                    case Err(e):
                        return Err(e)
                    case Ok(_):
                        pass
            return Ok(BTNodeState.SUCCEEDED)
        elif failures > min(self._tolerate_failures, self._needed_successes):
""")],
"ParallelFailureTolerance with tolerate_failures larger than needed_successes and more failures than needed successes",
"the node fails although no more children failed than are tolerated",
'''
from ros_bt_py.nodes.parallel import ParallelFailureTolerance
cs = [leaf("a", S.FAILED), leaf("b", S.FAILED), leaf("c", S.RUNNING, S.SUCCEEDED)]
n = build(ParallelFailureTolerance(name="m", ros_node=ROS), *cs)
n.node_config.inputs["needed_successes"].set_value(1)
n.node_config.inputs["tolerate_failures"].set_value(2)
get(n.setup())
expect(get(n.tick()) == S.RUNNING, "two failures are tolerated")
expect(get(n.tick()) == S.SUCCEEDED, "one success is enough")
''')

seed("s04-retry-counter", "C05", "nodes/decorators.py", [(
"""            if state == BTNodeState.SUCCEEDED:
                if self._repeat_count < self._num_repeats:
                    self._repeat_count += 1
                    return child.reset().map(lambda _: BTNodeState.RUNNING)
                else:
                    return Ok(BTNodeState.SUCCEEDED)
            return Ok(state)

        # Succeed if we have no children
        return Ok(BTNodeState.SUCCEEDED)

    def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
        return Ok(BTNodeState.SHUTDOWN)

    def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
        self._repeat_count = 0
        for child in self.children:
            return child.reset()
        return Ok(BTNodeState.IDLE)
""", """            if state == BTNodeState.SUCCEEDED:
                if self._repeat_count < self._num_repeats:
                    self._repeat_count += 1
                    return child.reset().map(lambda _: BTNodeState.RUNNING)
                else:
                    return Ok(BTNodeState.SUCCEEDED)
            return Ok(state)

        # Succeed if we have no children
        return Ok(BTNodeState.SUCCEEDED)

    def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
        return Ok(BTNodeState.SHUTDOWN)

    def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
        for child in self.children:
            match child.reset():
                case Err(e):
                    return Err(e)
                case Ok(_):
                    self._repeat_count = min(self._repeat_count, self._num_repeats - 1)
        return Ok(BTNodeState.IDLE)
""")],
"Repeat used up some of its repetitions, is reset and runs again",
"repetitions of the previous run are counted in the next one",
'''
from ros_bt_py.nodes.decorators import Repeat
c = leaf("a", S.SUCCEEDED)
n = build(Repeat(name="m", ros_node=ROS), c)
n.node_config.inputs["num_repeats"].set_value(3)
get(n.setup())
for _ in range(3):
    expect(get(n.tick()) == S.RUNNING, "first run")
get(n.reset())
for _ in range(3):
    expect(get(n.tick()) == S.RUNNING, "the run after a reset has all its repetitions again")
expect(get(n.tick()) == S.SUCCEEDED, "the run after a reset ends")
''')

seed("s05-util-gap", "C08", "nodes/sequence.py", [(
"""                ].has_upper_bound_failure &= child_bounds.has_upper_bound_success
""", """                ].has_upper_bound_failure &= child_bounds.has_upper_bound_failure
""")],
"an earlier child of a sequence that knows no upper bound for its success but one for its failure",
"the sequence reports an upper bound for failure although the child that has to succeed first has none",
'''
from ros_bt_py.nodes.sequence import Sequence
kw = dict(can_execute=True, has_lower_bound_success=True, lower_bound_success=1.0, has_lower_bound_failure=True, has_upper_bound_failure=True)
a = leaf("a", util=UtilityBounds(has_upper_bound_success=False, **kw))
b = leaf("b", util=UtilityBounds(has_upper_bound_success=True, upper_bound_success=2.0, **kw))
n = build(Sequence(name="m", ros_node=ROS), a, b)
u = get(n.calculate_utility())
expect(not u.has_upper_bound_failure, "upper bound for failure reported although child a may take any time to succeed before b fails")
''')

