"""Nodes that compute: Operation, UnaryOperation, Convert, Compare*, ALessThanB, RandomInt, Constant, PassthroughNode, IO, strings."""
import types as _types

from harness.nodes import *
from ros_bt_py.nodes.maths import Operation, UnaryOperation, Convert
from ros_bt_py.nodes.compare import Compare, CompareNewOnly, ALessThanB
from ros_bt_py.nodes.constant import Constant
from ros_bt_py.nodes.passthrough_node import PassthroughNode
from ros_bt_py.nodes.io import IOInput, IOOutput
from ros_bt_py.nodes.format import StringConcatenation, GetFileExtension
import ros_bt_py.nodes.random_number as RN

ASSUMPTIONS = ["float arithmetic is exact where operands are symbolic (both the node and the expectation use the same operation)",
               "the random number generator returns some number in the range it is asked for"]
I64 = (-(1 << 63), (1 << 63) - 1)
BIN = {"add": lambda a, b: a + b, "and": lambda a, b: a & b, "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "lshift": lambda a, b: a << b, "mod": lambda a, b: a % b, "mul": lambda a, b: a * b,
       "or": lambda a, b: a | b, "pow": lambda a, b: a ** b, "rshift": lambda a, b: a >> b, "sub": lambda a, b: a - b, "truediv": lambda a, b: a / b, "xor": lambda a, b: a ^ b}
for _a, _b in (("+", "add"), ("&", "and"), ("/", "div"), ("//", "floordiv"), ("<<", "lshift"), ("%", "mod"), ("*", "mul"), ("|", "or"), ("**", "pow"), (">>", "rshift"), ("-", "sub"), ("^", "xor")):
    BIN[_a] = BIN[_b]
UN = {"not": lambda a: not a, "inv": lambda a: ~a, "~": lambda a: ~a, "neg": lambda a: -a, "-": lambda a: -a, "pos": lambda a: +a, "+": lambda a: +a}
for _n in ("exp expm1 log log1p log10 ceil fabs factorial floor sqrt acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh degrees radians erf erfc gamma lgamma").split():
    UN[_n] = getattr(math, _n)
FMAX = 1.7976931348623157e308


def fits(v, t):
    """Whether v is a value of an output of type t."""
    if t is bool:
        return isinstance(v, bool)
    if t is int:
        return isinstance(v, int) and sym_and(v >= I64[0], v <= I64[1])
    return isinstance(v, (int, float)) and sym_and(v >= -FMAX, v <= FMAX)


def expected(ctx, fn, args, t):
    """The value of a calculation, or None if there is none that fits the output."""
    try:
        v = fn(*args)
    except (ArithmeticError, ValueError, TypeError):
        return None
    f = fits(v, t)
    if f is True or f is not False and bool(f):
        return v
    return None


def calc(ctx, cls, table, ops, t, values, ticks=1):
    """The output is the result of the operation; without a result (or one that doesn't fit) the tick is an error."""
    op = ctx.pick("op", ops)
    n = started(ctx, make(ctx, cls, {"operand_type": t}))
    put(ctx, n, "operator", op)
    keys = ("a", "b") if cls is Operation else ("in",)
    before = out(n, "result")
    for i in range(ticks):
        args = [values(ctx, "%s%d" % (k, i), k) for k in keys]
        for k, v in zip(keys, args):
            put(ctx, n, k, v)
        r = tick(ctx, n)
        want = expected(ctx, table[op], args, t)
        if want is None:
            ctx.check(r == ERR, "a calculation without a (fitting) result is an error")
            ctx.check(sym_deep_eq(out(n, "result"), before), "a failed calculation doesn't change the output")
            ctx.reach("error")
            return
        ctx.check(r == SU, "a calculation with a result succeeds")
        before = out(n, "result")
        ctx.check(before == want, "the output is the result of the operation")
        ctx.check(fits(before, t), "the output is of the declared type")
        ctx.reach("result")


def ints(lo, hi):
    return lambda ctx, name, k: ctx.int(name, lo, hi)


def picks(*opts):
    return lambda ctx, name, k: ctx.pick(name, opts)


def operators(ctx):
    """All operators have a known meaning."""
    ctx.check(set(Operation._node_config.inputs["operator"].valid_values) == set(BIN), "all binary operators are known")
    ctx.check(set(UnaryOperation._node_config.inputs["operator"].valid_values) == set(UN), "all unary operators are known")
    ctx.reach("done")


CONV = {(int, bool): lambda v: v != 0, (bool, int): lambda v: 1 if v else 0, (int, float): lambda v: v, (float, int): None}


def convert(ctx, i, o, values, ticks=2):
    n = make(ctx, Convert, {"input_type": i, "output_type": o})
    if i is not o and o is not str and (i, o) not in CONV:
        ctx.check(n.setup().is_err(), "an unsupported conversion is an error in setup")
        ctx.reach("unsupported")
        return
    started(ctx, n)
    for k in range(ticks):
        v = values(ctx, "v%d" % k, "in")
        put(ctx, n, "in", v)
        r = tick(ctx, n)
        w = out(n, "out")
        if i is float and o is int:
            if r == ERR:
                ctx.check(sym_or(v >= 2 ** 63, v < -2 ** 63 + 1), "a float in the range of an integer is converted")
                ctx.reach("overflow")
                return
            ctx.check(isinstance(w, int) and not isinstance(w, bool), "the output is an int")
            ctx.check(sym_and(w - v < 1, v - w < 1, sym_implies(v >= 0, w <= v), sym_implies(v <= 0, w >= v)), "floats are rounded towards zero")
        elif o is str and i is not str:
            ctx.check(w == str(v), "the output is the text of the input")
        elif i is o:
            ctx.check(sym_deep_eq(w, v), "a value of the right type is unchanged")
        else:
            ctx.check(isinstance(w, o), "the output is of the declared type")
            ctx.check(w == CONV[i, o](v), "the output is the converted input")
        ctx.check(r == SU, "a conversion succeeds")
        ctx.reach("converted")


def compare(ctx, cls, t, values, steps):
    """SUCCEEDED exactly if the comparison holds; CompareNewOnly is RUNNING as long as nothing changed since the last tick."""
    key = "operand_type" if cls is ALessThanB else "compare_type"
    n = started(ctx, make(ctx, cls, {key: t}))
    a, b = values(ctx, "a", "a"), values(ctx, "b", "b")
    put(ctx, n, "a", a)
    put(ctx, n, "b", b)
    new = True
    for i in range(steps):
        op = ctx.pick("op%d" % i, ("tick", "a", "b"))
        if op == "tick":
            r = tick(ctx, n)
            if cls is CompareNewOnly and not new:
                ctx.check(r == R, "without new values the comparison waits")
                ctx.reach("waiting")
                continue
            want = a < b if cls is ALessThanB else sym_deep_eq(a, b)
            ctx.check(r == (SU if want else F), "the result is that of the comparison")
            ctx.reach("true" if r == SU else "false")
            new = False
        else:
            v = values(ctx, "v%d" % i, op)
            same = sym_deep_eq(v, a if op == "a" else b)
            if not same:
                new = True
            put(ctx, n, op, v)
            a, b = (v, b) if op == "a" else (a, v)


def copies(ctx, cls, key, outp, tkey, t, values, steps):
    """The node passes on its input unchanged, whenever it is ticked."""
    static = cls is Constant
    v = values(ctx, "v", "in")
    n = make(ctx, cls, {tkey: t}, static={key: v} if static else None)
    started(ctx, n)
    if not static:
        put(ctx, n, key, v)
    for i in range(steps):
        op = ctx.pick("op%d" % i, ("tick", "again", "reset") if static else ("tick", "set", "reset"))
        if op == "set":
            v = values(ctx, "v%d" % i, "in")
            put(ctx, n, key, v)
        elif op == "again":
            ok(ctx, n.shutdown(), "shutdown")
            ok(ctx, n.setup(), "setup")
        elif op == "reset":
            ok(ctx, n.reset(), "reset")
        else:
            ctx.check(tick(ctx, n) == SU, "passing on a value succeeds")
            w = out(n, outp)
            ctx.check(sym_deep_eq(w, v), "the output is the input")
            if isinstance(w, list):
                w.append(w[0] if w else 0)
                ctx.check(sym_deep_eq(out(n, outp), v), "changing a value got from an output doesn't change the output")
            ctx.reach("copied")


class Random:
    """Stands for the random module: the solver chooses the numbers."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randrange() (%s, %s, %s)" % (a, b + 1, b + 1 - a))
        self.n += 1
        v = self.ctx.int("rand%d" % self.n)
        self.ctx.assume(sym_and(v >= a, v <= b))
        return v

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if type(step) is not int or step != 1:
            raise ValueError("unexpected step")
        return self.randint(start, stop - 1)

    def random(self):
        raise ValueError("unexpected use of the generator")


def rand(ctx, ticks):
    saved = RN.random
    RN.random = Random(ctx)
    try:
        n = started(ctx, make(ctx, RN.RandomInt))
        lo, hi = ctx.int("min", *I64), ctx.int("max", *I64)
        put(ctx, n, "min", lo)
        put(ctx, n, "max", hi)
        for i in range(ticks):
            r = tick(ctx, n)
            if r == ERR:
                ctx.check(lo >= hi, "a random number of a valid range is no error")
                ctx.reach("invalid")
                return
            ctx.check(lo <= hi, "an invalid range is an error")
            ctx.check(r == SU, "drawing a random number succeeds")
            v = out(n, "random_number")
            ctx.check(sym_and(v >= lo, v <= hi), "the random number is in the range")
            if v == lo:
                ctx.reach("min")
            elif v == hi:
                ctx.reach("max")
            else:
                ctx.reach("between")
    finally:
        RN.random = saved


def concat(ctx, ticks):
    n = started(ctx, make(ctx, StringConcatenation))
    for i in range(ticks):
        a, b = ctx.str("a%d" % i, 6), ctx.str("b%d" % i, 6)
        put(ctx, n, "a", a)
        put(ctx, n, "b", b)
        ctx.check(tick(ctx, n) == SU, "concatenating strings succeeds")
        ctx.check(out(n, "formatted_string") == a + b, "the output is a followed by b")
        ctx.reach("done")


def extension(ctx, maxlen):
    n = started(ctx, make(ctx, GetFileExtension))
    p = ctx.str("path", maxlen, "a./")
    put(ctx, n, "path", p)
    ctx.check(tick(ctx, n) == SU, "splitting a path succeeds")
    f, e = out(n, "filename"), out(n, "extension")
    ctx.check(f + e == p, "file name and extension are the path")
    if e == "":
        # no dot within the last component, other than leading ones
        ctx.check("." not in str(p).rsplit("/", 1)[-1].lstrip("."), "a file with an extension has one")
        ctx.reach("none")
    else:
        ctx.check(e.startswith(".") and "." not in e[1:] and "/" not in e, "an extension starts with the last dot")
        ctx.check(f.rsplit("/", 1)[-1].strip(".") != "", "the leading dots of a file are no extension")
        ctx.reach("some")


def unset(ctx, cls, types):
    """A node with an input that was never set doesn't compute anything."""
    n = started(ctx, make(ctx, cls, types))
    keys = [k for k in n.node_config.inputs if not n.node_config.inputs[k].is_static]
    miss = ctx.pick("missing", keys)
    given = {"operator": "+", "path": "a", "format_string": ""}
    for k in keys:
        if k != miss:
            put(ctx, n, k, given.get(k, "x" if cls is StringConcatenation else 1))
    ctx.check(tick(ctx, n) == ERR, "a node with an unset input can't be ticked")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    big = ints(-(1 << 62), 1 << 62)
    hs = [H("operators", operators, {}, "", reach=("done",))]
    lin = ["add", "+", "sub", "-"]
    hs.append(H("int/linear", calc, dict(cls=Operation, table=BIN, ops=lin, t=int, values=ints(*I64), ticks=2), "any 64-bit integers", reach=("result", "error")))
    hs.append(H("int/mul", calc, dict(cls=Operation, table=BIN, ops=["mul", "*"], t=int, values=lambda c, n, k: c.int(n, *I64) if k == "a" else c.pick(n, (0, 1, -1, 2, -3, 1 << 40)), ticks=1), "any 64-bit integer times one of 6", reach=("result", "error")))
    hs.append(H("int/div", calc, dict(cls=Operation, table=BIN, ops=["floordiv", "//", "mod", "%"], t=int, values=lambda c, n, k: c.int(n, *I64) if k == "a" else c.pick(n, (0, 1, -1, 2, -3, 7, 1 << 40)), ticks=1), "any 64-bit integer by one of 7", reach=("result", "error")))
    hs.append(H("int/truediv", calc, dict(cls=Operation, table=BIN, ops=["div", "/", "truediv"], t=int, values=ints(-2, 2)), "-2..2", reach=("error",), real_floats=True))
    m = 6 if t else 3
    hs.append(H("int/bits", calc, dict(cls=Operation, table=BIN, ops=["and", "&", "or", "|", "xor", "^", "lshift", "<<", "rshift", ">>", "pow", "**"], t=int, values=ints(-m, m)), "-%d..%d" % (m, m), reach=("result", "error"), max_paths=20000))
    hs.append(H("int/wide", calc, dict(cls=Operation, table=BIN, ops=["<<", "lshift", "**", "pow", ">>", "rshift"], t=int, values=lambda c, n, k: c.pick(n, (1, -1, 3, 1 << 31) if k == "a" else (0, 1, 2, 62, 63, 64))), "4 times 6 operands around the limits", reach=("result", "error")))
    hs.append(H("bool/binary", calc, dict(cls=Operation, table=BIN, ops=sorted(BIN), t=bool, values=picks(False, True)), "all operators and operands", reach=("result", "error")))
    hs.append(H("float/arith", calc, dict(cls=Operation, table=BIN, ops=["add", "+", "sub", "-"], t=float, values=lambda c, n, k: c.real(n, -FMAX, FMAX), ticks=2), "any finite floats, exact arithmetic", reach=("result", "error"), real_floats=True))
    hs.append(H("float/mul", calc, dict(cls=Operation, table=BIN, ops=["mul", "*", "div", "/", "truediv"], t=float, values=lambda c, n, k: c.real(n, -FMAX, FMAX) if k == "a" else c.pick(n, (0.0, 0.5, -2.0, 1e300))), "any finite float with one of 4", reach=("result", "error"), real_floats=True))
    fl = (0.0, 0.5, -0.5, 1.0, -1.0, 2.5, -7.25, 1e308, -1e308)
    hs.append(H("float/points", calc, dict(cls=Operation, table=BIN, ops=sorted(BIN), t=float, values=picks(*fl)), "all operators, %d operands each" % len(fl), reach=("result", "error"), max_paths=20000))
    hs.append(H("int/unary", calc, dict(cls=UnaryOperation, table=UN, ops=["neg", "-", "pos", "+", "inv", "~"], t=int, values=ints(*I64), ticks=2), "any 64-bit integer", reach=("result", "error")))
    hs.append(H("int/points", calc, dict(cls=UnaryOperation, table=UN, ops=sorted(UN), t=int, values=picks(-2, -1, 0, 1, 2, 5, 20, 30)), "all operators, 8 operands", reach=("result", "error")))
    hs.append(H("bool/unary", calc, dict(cls=UnaryOperation, table=UN, ops=sorted(UN), t=bool, values=picks(False, True)), "all operators and operands", reach=("result", "error")))
    hs.append(H("float/unary", calc, dict(cls=UnaryOperation, table=UN, ops=sorted(UN), t=float, values=picks(*fl)), "all operators, %d operands" % len(fl), reach=("result", "error")))
    vals = {int: ints(*I64), bool: lambda c, n, k: c.bool(n), float: lambda c, n, k: c.real(n, -FMAX, FMAX), str: lambda c, n, k: c.str(n, 4),
            bytes: picks(b"", b"x"), list: lambda c, n, k: [c.bool(n + ".0")], dict: lambda c, n, k: {"k": c.bool(n)}}
    few = {int: picks(0, -7, 1 << 40), bool: picks(True, False), float: picks(0.5, -1e300), bytes: picks(b"", b"x"), list: picks([], [True]), dict: picks({}, {"k": True}), str: vals[str]}
    ty = [bool, int, float, str, bytes, list, dict]
    for i in ty:
        for o in ty:
            v = few[i] if o is str else ints(-(1 << 53), 1 << 53) if (i, o) == (int, float) else vals[i]
            good = i is o or o is str or (i, o) in CONV
            hs.append(H("convert/%s-%s" % (i.__name__, o.__name__), convert, dict(i=i, o=o, values=v), "any value", real_floats=True,
                        reach=(("converted", "overflow") if (i, o) == (float, int) else ("converted",)) if good else ("unsupported",)))
    k = 6 if t else 4
    for c in (Compare, CompareNewOnly, ALessThanB):
        for x in (int, float) if c is ALessThanB else (int, float, str, bool, list):
            hs.append(H("%s/%s" % (c.__name__, x.__name__), compare, dict(cls=c, t=x, values=vals[x], steps=k - (x is list)), "%d operations, any values" % (k - (x is list)), reach=("true", "false") + (("waiting",) if c is CompareNewOnly else ()), real_floats=True, max_paths=200000))
    for c, key, o, tk in ((Constant, "constant_value", "constant", "constant_type"), (PassthroughNode, "in", "out", "passthrough_type"), (IOInput, "in", "out", "io_type"), (IOOutput, "in", "out", "io_type")):
        for x in (int, str, list):
            hs.append(H("%s/%s" % (c.__name__, x.__name__), copies, dict(cls=c, key=key, outp=o, tkey=tk, t=x, values=vals[x], steps=4), "4 operations, any values", reach=("copied",)))
    hs.append(H("random", rand, dict(ticks=3), "any limits, any numbers drawn, 3 ticks", reach=("min", "max", "between", "invalid")))
    hs.append(H("concat", concat, dict(ticks=2), "strings of up to 6 printable characters", reach=("done",)))
    hs.append(H("extension", extension, dict(maxlen=6 if t else 4), "paths of up to %d characters out of a . /" % (6 if t else 4), reach=("some", "none"), max_paths=20000, max_conc=2000))
    for c, ts in ((Operation, {"operand_type": int}), (UnaryOperation, {"operand_type": int}), (Compare, {"compare_type": int}), (CompareNewOnly, {"compare_type": int}), (ALessThanB, {"operand_type": int}),
                  (PassthroughNode, {"passthrough_type": int}), (IOInput, {"io_type": int}), (IOOutput, {"io_type": int}), (RN.RandomInt, {}), (StringConcatenation, {}), (GetFileExtension, {})):
        hs.append(H("unset/" + c.__name__, unset, dict(cls=c, types=ts), "any one missing input", reach=("done",)))
    return hs
