"""Utility (cost) bounds of inner nodes contain every execution they are meant to bound."""
from itertools import combinations
from harness.common import *
from harness.inner import DECO, make_inner, add
from ros_bt_py.nodes.sequence import Sequence, MemorySequence
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback, NameSwitch
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance

MAXC = 1000
KINDS = ("lower_bound_success", "upper_bound_success", "lower_bound_failure", "upper_bound_failure")


def child_bounds(ctx, i, full, can=None):
    """Consistent bounds of one child; unset bounds carry the value 0 (the message default)."""
    b = UtilityBounds()
    b.can_execute = True if can is None else can
    for o in ("success", "failure"):
        lo, hi = ctx.int("c%d.lb_%s" % (i, o), 0, MAXC), ctx.int("c%d.ub_%s" % (i, o), 0, MAXC)
        for side, v in (("lower", lo), ("upper", hi)):
            has = True if full else ctx.bool("c%d.has_%s_%s" % (i, side, o))
            setattr(b, "has_%s_bound_%s" % (side, o), has)
            if not full:
                ctx.assume(sym_or(has, v == 0))
            setattr(b, "%s_bound_%s" % (side, o), v)
        ctx.assume(sym_or(sym_not(getattr(b, "has_lower_bound_" + o)), sym_not(getattr(b, "has_upper_bound_" + o)), lo <= hi))
    return b


def cost(ctx, i, o, b):
    v = ctx.int("c%d.cost_%s" % (i, o), 0, 3 * MAXC)
    ctx.assume(sym_or(sym_not(getattr(b, "has_lower_bound_" + o)), v >= getattr(b, "lower_bound_" + o)))
    ctx.assume(sym_or(sym_not(getattr(b, "has_upper_bound_" + o)), v <= getattr(b, "upper_bound_" + o)))
    return v


def inside(ctx, got, o, total, msg):
    ctx.check(sym_or(sym_not(getattr(got, "has_lower_bound_" + o)), total >= getattr(got, "lower_bound_" + o)), msg + " is not below the lower bound")
    ctx.check(sym_or(sym_not(getattr(got, "has_upper_bound_" + o)), total <= getattr(got, "upper_bound_" + o)), msg + " is not above the upper bound")


def build(ctx, cls, bs, need=None, tol=None):
    log = []
    node = make_inner(ctx, cls.__name__)
    if need is not None:
        node.node_config.inputs["needed_successes"].set_value(need)
    if tol is not None:
        node.node_config.inputs["tolerate_failures"].set_value(tol)
    for i, b in enumerate(bs):
        ok(ctx, node.add_child(probe(ctx, "c%d" % i, log, utility=Ok(b) if isinstance(b, UtilityBounds) else b)), "add_child")
    return node


def scenarios(cls, n, need, tol):
    """(outcome, [(child, child outcome)]) for every way the node can come to a result."""
    out = []
    if cls in (Sequence, MemorySequence):
        out.append(("success", [(i, "success") for i in range(n)]))
        out += [("failure", [(i, "success") for i in range(k)] + [(k, "failure")]) for k in range(n)]
    elif cls in (Fallback, MemoryFallback):
        out.append(("failure", [(i, "failure") for i in range(n)]))
        out += [("success", [(i, "failure") for i in range(k)] + [(k, "success")]) for k in range(n)]
    elif cls in (NameSwitch, EnumSwitch):
        for o in ("success", "failure"):
            out += [(o, [(i, o)]) for i in range(n)]
        out.append(("failure", []))
    else:
        nf = (n - need + 1) if tol is None else tol + 1
        out += [("success", [(i, "success") for i in g]) for g in combinations(range(n), need)]
        if nf <= n:
            out += [("failure", [(i, "failure") for i in g]) for g in combinations(range(n), nf)]
    return out


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def params(ctx, cls, n):
    need = ctx.pick("need", list(range(1, n + 1))) if cls in (Parallel, ParallelFailureTolerance) else None
    tol = ctx.pick("tol", list(range(0, n))) if cls is ParallelFailureTolerance else None
    return need, tol


def sound(ctx, cls, n):
    need, tol = params(ctx, cls, n)
    bs = [child_bounds(ctx, i, False) for i in range(n)]
    outcome, parts = ctx.pick("scenario", scenarios(cls, n, need, tol))
    t = total([cost(ctx, i, o, bs[i]) for i, o in parts])
    r = build(ctx, cls, bs, need, tol).calculate_utility()
    got = ok(ctx, r, "the utility of a node whose children report theirs")
    ctx.check(got.can_execute, "a node whose children all can execute can execute")
    inside(ctx, got, outcome, t, "the cost of " + outcome)
    ctx.reach(outcome)


def lowest(xs):
    m = xs[0]
    for x in xs[1:]:
        if x < m:
            m = x
    return m


def tight(ctx, cls, n):
    """With all bounds known, the reported bounds are the extreme scenario costs themselves."""
    need, tol = params(ctx, cls, n)
    bs = [child_bounds(ctx, i, True) for i in range(n)]
    got = ok(ctx, build(ctx, cls, bs, need, tol).calculate_utility(), "the utility of a node whose children report theirs")
    o = ctx.pick("outcome", ["success", "failure"])
    sc = [p for (oc, p) in scenarios(cls, n, need, tol) if oc == o]
    if not sc:
        return
    for side in ("lower", "upper"):
        ctx.check(getattr(got, "has_%s_bound_%s" % (side, o)), "a bound known for every child is known for the node")
        v = getattr(got, "%s_bound_%s" % (side, o))
        ts = [total([getattr(bs[i], "%s_bound_%s" % (side, oc)) for i, oc in p]) for p in sc]
        for t in ts:
            ctx.check(v <= t if side == "lower" else v >= t, "the %s bound covers every way to a result" % side)
        ctx.check(sym_or(*[v == t for t in ts]), "the %s bound is reached by one way to a result" % side)
    ctx.reach(o)


def cannot(ctx, cls, n):
    """Children that cannot execute or whose own calculation fails."""
    need, tol = params(ctx, cls, n)
    bad = ctx.pick("bad", list(range(n)))
    how = ctx.pick("how", ["cannot", "err"])
    bs = [child_bounds(ctx, i, True, can=(i != bad)) for i in range(n)]
    if how == "err":
        bs[bad] = Err(BehaviorTreeException("probe"))
    r = build(ctx, cls, bs, need, tol).calculate_utility()
    if how == "cannot":
        ctx.check(r.is_ok(), "a child that cannot execute is no error")
    if r.is_ok():
        g = r.unwrap()
        ctx.check(sym_not(g.can_execute), "a node with a child that cannot execute cannot execute")
        for k in KINDS:
            ctx.check(sym_not(getattr(g, "has_" + k)), "a node that cannot execute reports no bounds")
        ctx.reach("cannot")
    else:
        ctx.reach("error")


def decorators(ctx, names):
    b = child_bounds(ctx, 0, False, can=ctx.bool("can"))
    name = ctx.pick("class", names)
    node = make_inner(ctx, name)
    r0 = node.calculate_utility()
    ctx.check(r0.is_ok(), "a decorator without child has a utility")
    log = []
    child = probe(ctx, "c0", log, utility=Ok(b))
    ok(ctx, node.add_child(child), "add_child")
    got = ok(ctx, node.calculate_utility(), "the utility of a decorator")
    ctx.check(got.can_execute == b.can_execute, "a decorator can execute iff its child can")
    for k in KINDS:
        ctx.check(sym_and(getattr(got, "has_" + k) == getattr(b, "has_" + k), getattr(got, k) == getattr(b, k)), "a decorator reports its child's bounds")
    ctx.reach("done")


def empty(ctx, names):
    cls = ctx.pick("class", names)
    g = ok(ctx, cls(name="n").calculate_utility(), "the utility of an empty node")
    ctx.check(g.can_execute, "an empty node can execute")
    for k in KINDS:
        ctx.check(sym_and(getattr(g, "has_" + k), getattr(g, k) == 0), "an empty node costs nothing")
    ctx.reach("done")


def toofew(ctx, cls):
    n = 2
    need = ctx.int("need", 1, 6)
    bs = [child_bounds(ctx, i, True) for i in range(n)]
    r = build(ctx, cls, bs, need, 0 if cls is ParallelFailureTolerance else None).calculate_utility()
    ctx.check(r.is_err() == (need > n), "a parallel node has no utility exactly if it has too few children")
    ctx.reach("err" if r.is_err() else "ok")


def harnesses(tier):
    t = tier == "thorough"
    out = []
    for cls in (Sequence, Fallback, Parallel, ParallelFailureTolerance, NameSwitch, EnumSwitch, MemorySequence, MemoryFallback):
        c = cls.__name__
        ns = (1, 2, 3) if t else (2,)
        if t and cls in (Sequence, Fallback):
            ns = (1, 2, 3, 4)
        for n in ns:
            out.append(H("%s-sound-n%d" % (c, n), sound, dict(cls=cls, n=n), "%d children, costs symbolic in 0..%d, every bound symbolically present or absent, every way to a result" % (n, MAXC), real_floats=True, reach=("success", "failure")))
        for n in (2, 3) if (t or cls not in (ParallelFailureTolerance, Parallel)) else (2,):
            out.append(H("%s-tight-n%d" % (c, n), tight, dict(cls=cls, n=n), "%d children, all bounds known, symbolic in 0..%d" % (n, MAXC), real_floats=True, reach=("success", "failure")))
        out.append(H("%s-cannot" % c, cannot, dict(cls=cls, n=2), "2 children, one cannot execute / fails", real_floats=True, reach=("cannot",)))
    for cls in (Parallel, ParallelFailureTolerance):
        out.append(H("%s-toofew" % cls.__name__, toofew, dict(cls=cls), "2 children, threshold symbolic 1..6", real_floats=True, reach=("err", "ok")))
    out.append(H("decorators", decorators, dict(names=[d for d in DECO if d != "Optional"]), "every decorator class, child bounds symbolic", real_floats=True, reach=("done",)))
    out.append(H("empty", empty, dict(names=[Sequence, MemorySequence, Fallback, MemoryFallback]), "no children", real_floats=True, reach=("done",)))
    return out
