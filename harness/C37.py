"""Results: every operation keeps exactly one of value and error, against a model of (kind, value) pairs."""
import warnings as _warnings

from harness.common import *
from ros_bt_py.vendor import result as RES
from ros_bt_py.vendor.result import do, do_async, as_result, as_async_result, is_ok, is_err, UnwrapError, OkErr

ASSUMPTIONS = ["values and errors are integers, the functions given to the operations are arbitrary linear functions of them"]
DONE = "!done"


def run(co):
    """Run a coroutine that waits for nothing."""
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("the coroutine waits")


def soon(v):
    """Something awaitable that results in v."""
    class Soon:
        def __await__(self):
            return v
            yield
    return Soon()


def build(kind, v):
    return Ok(v) if kind == "ok" else Err(v)


def agree(ctx, r, kind, v, what):
    """r is a result of the given kind with the given value, by everything that can be asked of it."""
    ctx.check(isinstance(r, OkErr), what + " is a result")
    good = kind == "ok"
    ctx.check(isinstance(r, Ok) == good and isinstance(r, Err) == (not good), what + " is of the right kind")
    ctx.check(r.is_ok() == good and r.is_err() == (not good) and is_ok(r) == good and is_err(r) == (not good), "is_ok and is_err tell the kind of " + what)
    match r:
        case Ok(x):
            ctx.check(good, what + " matches its kind only")
        case Err(x):
            ctx.check(not good, what + " matches its kind only")
    ctx.check(x == v, what + " holds the right value")
    ctx.check(sym_deep_eq(r.ok(), v if good else None) and sym_deep_eq(r.err(), None if good else v), "ok() and err() of " + what)
    ctx.check((r.ok_value if good else r.err_value) == v, "the value of " + what)


def raising(fn, exc):
    try:
        fn()
    except exc as e:
        return e
    return None


def chain(ctx, n):
    """Operations one after another."""
    calls = []
    kind, v = ctx.pick("kind", ["ok", "err"]), ctx.int("v")
    r = build(kind, v)
    for i in range(n):
        k, a, b = "%d" % i, ctx.int("a%d" % i), ctx.int("b%d" % i)
        good = kind == "ok"
        f = lambda x: (calls.append(x), x * a + b)[1]  # noqa: E731
        op = ctx.pick("op" + k, ["map", "map_async", "map_err", "and_then", "and_then_async", "or_else", "inspect", "inspect_err"])
        hit = good == (op in ("map", "map_async", "and_then", "and_then_async", "inspect"))
        del calls[:]
        if op in ("map", "map_err"):
            q = getattr(r, op)(f)
            new = (kind, v * a + b)
        elif op == "map_async":
            q = run(r.map_async(lambda x: soon(f(x))))
            new = (kind, v * a + b)
        elif op in ("and_then", "or_else", "and_then_async"):
            to = ctx.pick("to" + k, ["ok", "err"]) if hit else kind
            g = lambda x: build(to, f(x))  # noqa: E731
            q = run(r.and_then_async(lambda x: soon(g(x)))) if op == "and_then_async" else getattr(r, op)(g)
            new = (to, v * a + b)
        else:
            q = getattr(r, op)(f)
            ctx.check(q is r, "inspect gives the same result")
            new = (kind, v)
        ctx.check(len(calls) == (1 if hit else 0), "a function is called once, and only for its kind of result")
        if hit:
            ctx.check(calls[0] == v, "a function gets the value of the result")
        agree(ctx, r, kind, v, "the original result")
        if hit:
            kind, v = new
        r = q
        agree(ctx, r, kind, v, "the result of " + op)
    ctx.reach(kind)


def ends(ctx):
    """Taking the value out of a result."""
    kind, v, d, a, b = ctx.pick("kind", ["ok", "err"]), ctx.int("v"), ctx.int("d"), ctx.int("a"), ctx.int("b")
    r, good, calls = build(kind, v), kind == "ok", []
    f = lambda x: (calls.append(x), x * a + b)[1]  # noqa: E731
    ctx.check(r.unwrap_or(d) == (v if good else d), "unwrap_or gives the value or the default")
    ctx.check(r.unwrap_or_else(f) == (v if good else v * a + b) and len(calls) == (not good), "unwrap_or_else calls the function for errors only")
    del calls[:]
    ctx.check(r.map_or(d, f) == (v * a + b if good else d) and len(calls) == good, "map_or calls the function for values only")
    del calls[:]
    ctx.check(r.map_or_else(lambda: d, f) == (v * a + b if good else d) and len(calls) == good, "map_or_else calls the right function")
    for name, args, on in (("unwrap", (), True), ("expect", ("m",), True), ("unwrap_err", (), False), ("expect_err", ("m",), False)):
        if good == on:
            ctx.check(getattr(r, name)(*args) == v, name + " gives the value of a result of the right kind")
        else:
            e = raising(lambda: getattr(r, name)(*args), UnwrapError)
            ctx.check(e is not None, name + " raises for a result of the wrong kind")
            ctx.check(e is None or e.result is r, "the error tells the result")
    e = raising(lambda: r.unwrap_or_raise(KeyError), KeyError)
    if good:
        ctx.check(e is None and r.unwrap_or_raise(KeyError) == v, "unwrap_or_raise gives the value")
    else:
        ctx.check(e is not None and e.args[0] == v, "unwrap_or_raise raises the given exception with the error")
    ctx.check([x for x in Ok(v)] == [v] if good else isinstance(raising(lambda: next(iter(r)), Exception), Exception), "only values can be iterated")
    with _warnings.catch_warnings():
        _warnings.simplefilter("ignore")
        ctx.check(r.value == v, "the inner value of either kind")
    ctx.reach(kind)


def cause(ctx):
    """An exception that is an error is the cause of what unwrapping raises."""
    err = ctx.pick("err", [ValueError("x"), KeyError(1), "text", None])
    name = ctx.pick("op", ["unwrap", "expect"])
    e = raising(lambda: getattr(Err(err), name)(*(("m",) if name == "expect" else ())), UnwrapError)
    ctx.check(e is not None and e.__cause__ is (err if isinstance(err, BaseException) else None), "an exception that is an error is kept as the cause")
    ctx.check(name == "unwrap" or str(e).startswith("m"), "expect gives the message")
    ctx.reach("cause" if isinstance(err, BaseException) else "none")


def equal(ctx):
    ka, kb = ctx.pick("ka", ["ok", "err"]), ctx.pick("kb", ["ok", "err", "plain"])
    va, vb = ctx.int("va", 0, 3), ctx.int("vb", 0, 3)
    a = build(ka, va)
    b = build(kb, vb) if kb != "plain" else vb
    want = sym_and(ka == kb, va == vb)
    ctx.check(bool(a == b) == bool(want), "results are equal iff they are of the same kind and their values are equal")
    ctx.check(bool(a != b) != bool(want), "unequal is the opposite of equal")
    if want:
        x, y = int(va), int(vb)
        ctx.check(hash(build(ka, x)) == hash(build(kb, y)), "equal results have the same hash")
        ctx.reach("equal")
    else:
        ctx.reach("unequal")


def notation(ctx, n, kind):
    """do: the first error ends it, later parts aren't evaluated."""
    kinds = [ctx.pick("k%d" % i, ["ok", "err"]) for i in range(n)]
    vs = [ctx.int("v%d" % i) for i in range(n)]
    last, seen = ctx.pick("last", ["ok", "err"]), []

    def part(i, *got):
        for j, g in enumerate(got):
            ctx.check(g == vs[j], "each name is bound to the value of its part")
        seen.append(i)
        return build(kinds[i], vs[i])

    def end(*got):
        seen.append(DONE)
        return build(last, sum(got))

    async def apart(*a):
        return part(*a)

    if kind == "do":
        gen = {1: lambda: (end(a) for a in part(0)), 2: lambda: (end(a, b) for a in part(0) for b in part(1, a)),
               3: lambda: (end(a, b, c) for a in part(0) for b in part(1, a) for c in part(2, a, b)),
               4: lambda: (end(a, b, c, d) for a in part(0) for b in part(1, a) for c in part(2, a, b) for d in part(3, a, b, c))}[n]
        r = do(gen()) if ctx.pick("how", ["do", "do_async"]) == "do" else run(do_async(gen()))
    else:
        async def go():
            if n == 1:
                return await do_async(end(a) for a in await apart(0))
            if n == 2:
                return await do_async(end(a, b) for a in await apart(0) for b in await apart(1, a))
            return await do_async(end(a, b, c) for a in await apart(0) for b in await apart(1, a) for c in await apart(2, a, b))
        r = run(go())
    bad = [i for i in range(n) if kinds[i] == "err"]
    if bad:
        agree(ctx, r, "err", vs[bad[0]], "do with an error")
        ctx.check(seen == list(range(bad[0] + 1)), "nothing behind the first error is evaluated")
        ctx.reach("error")
    else:
        agree(ctx, r, last, sum(vs), "do without error")
        ctx.check(seen == list(range(n)) + [DONE], "every part is evaluated once, in order")
        ctx.reach("done")


def failing(ctx):
    """Exceptions that aren't errors of results pass through do unchanged."""
    exc = ctx.pick("exc", [ValueError("x"), TypeError("x"), UnwrapError(Err(1), "x"), StopAsyncIteration()])
    at = ctx.pick("at", [0, 1, 2])
    v, seen = ctx.int("v"), []

    def part(i):
        seen.append(i)
        if i == at:
            raise exc
        return Ok(v)

    def go():
        return do(Ok(a + b + c) for a in part(0) for b in part(1) for c in part(2))
    how = ctx.pick("how", [go, lambda: run(do_async(Ok(a + b + part(2).unwrap()) for a in part(0) for b in part(1)))])
    try:
        how()
        ctx.fail("an exception passes through do")
    except Exception as e:
        ctx.check(e is exc, "an exception passes through do unchanged")
    ctx.check(seen == list(range(at + 1)), "nothing behind the exception is evaluated")
    ctx.reach("%d" % at)


def asynchronous(ctx):
    """do refuses asynchronous generators, do_async takes both kinds."""
    v = ctx.int("v")

    async def part(x):
        return Ok(x)

    async def go():
        return do(Ok(a + b) for a in await part(v) for b in await part(v))
    e = raising(lambda: run(go()), TypeError)
    ctx.check(e is not None, "do refuses asynchronous generators")
    ctx.reach("refused")


class Base(Exception):
    pass


class Sub(Base):
    pass


class Other(Exception):
    pass


def wrapped(ctx):
    """as_result: exactly the given exceptions become errors."""
    v, a = ctx.int("v"), ctx.int("a")
    what = ctx.pick("raises", [None, Base, Sub, Other, KeyboardInterrupt])
    caught = ctx.pick("caught", [(Base,), (Sub,), (Other,), (Sub, Other), (BaseException,)])
    exc = what("x") if what else None

    def f(x, *, y=0):
        "doc"
        if exc is not None:
            raise exc
        return x + y

    async def af(x, *, y=0):
        return f(x, y=y)
    way = ctx.pick("way", ["as_result", "as_async_result"])
    if way == "as_result":
        g = as_result(*caught)(f)
        ctx.check(g.__name__ == "f" and g.__doc__ == "doc", "the function keeps its name")
        call = lambda: g(v, y=a)  # noqa: E731
    else:
        g = as_async_result(*caught)(af)
        call = lambda: run(g(v, y=a))  # noqa: E731
    try:
        r = call()
    except BaseException as e:
        if exc is None or e is not exc:
            raise
        ctx.check(not isinstance(exc, caught), "a given exception is an error")
        ctx.reach("escapes")
        return
    if exc is None:
        agree(ctx, r, "ok", v + a, "a returned value")
        ctx.reach("value")
    else:
        ctx.check(isinstance(exc, caught), "other exceptions are not caught")
        ctx.check(isinstance(r, Err) and r.err() is exc, "the exception is the error")
        ctx.reach("error")


def misused(ctx):
    args = ctx.pick("args", [(), (1,), (Base("x"),), (int,), (Base, "Base"), (Base,)])
    way = ctx.pick("way", [as_result, as_async_result])
    bad = args != (Base,)
    ctx.check((raising(lambda: way(*args), TypeError) is not None) == bad, "as_result needs exception types")
    ctx.reach("bad" if bad else "good")


def harnesses(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    hs = [H("chain", chain, dict(n=n), "%d operations one after another, any values" % n, reach=("ok", "err"), max_paths=200000),
          H("ends", ends, {}, "any values", reach=("ok", "err")), H("cause", cause, {}, "4 errors", reach=("cause", "none")),
          H("equal", equal, {}, "any kinds, values 0..3", reach=("equal", "unequal")), H("as_result", wrapped, {}, "any values, 5 exceptions, 5 lists of caught ones", reach=("value", "error", "escapes")),
          H("failing", failing, {}, "4 exceptions in each of 3 parts", reach=("0", "1", "2")), H("asynchronous", asynchronous, {}, "any value", reach=("refused",)),
          H("misused", misused, {}, "6 lists of arguments", reach=("good", "bad"))]
    for k in range(1, 5):
        hs.append(H("do/%d" % k, notation, dict(n=k, kind="do"), "%d parts" % k, reach=("done", "error")))
    for k in range(1, 4):
        hs.append(H("do_async/%d" % k, notation, dict(n=k, kind="async"), "%d awaited parts" % k, reach=("done", "error")))
    return hs
