"""Stand-in for typeguard.typechecked during symbolic execution: same checks on
arguments and return values (first item of collections, as typeguard's default), and
proxies count as the builtin type they stand for.  Replays use the real typeguard."""
import collections.abc
import functools
import inspect
import types
import typing

from typeguard import TypeCheckError

_NONE = type(None)
_ORIGINS = {list: "seq", dict: "map", collections.abc.Mapping: "map", collections.abc.Sequence: "seq", collections.abc.Iterable: "any",
            typing.get_origin(typing.List[int]): "seq", set: "set", tuple: "tuple"}


def checker(t):
    """predicate for annotation t, or None if everything passes"""
    if t is typing.Any or t is inspect.Parameter.empty or isinstance(t, str):
        return None
    if t is None or t is _NONE:
        return lambda v: v is None
    if isinstance(t, typing.TypeVar):
        if t.__bound__ is not None:
            return checker(t.__bound__)
        if t.__constraints__:
            cs = [checker(c) for c in t.__constraints__]
            return None if any(c is None for c in cs) else (lambda v: any(c(v) for c in cs))
        return None
    o = typing.get_origin(t)
    a = typing.get_args(t)
    if o is typing.Union or o is types.UnionType:
        cs = [checker(x) for x in a]
        return None if any(c is None for c in cs) else (lambda v: any(c(v) for c in cs))
    if o is typing.Literal:
        return lambda v: v in a
    if o in (typing.TypeGuard, getattr(typing, "TypeIs", 0)):
        return lambda v: isinstance(v, bool)
    if o is type:
        x = a[0]
        if isinstance(x, typing.TypeVar):
            x = x.__bound__ or object
        x = typing.get_origin(x) or x
        return lambda v: isinstance(v, type) and (not isinstance(x, type) or issubclass(v, x))
    if o is not None:
        k = _ORIGINS.get(o)
        if k == "map":
            kc, vc = (checker(a[0]), checker(a[1])) if a else (None, None)

            def m(v):
                if not isinstance(v, o):
                    return False
                for key in v:
                    return (kc is None or kc(key)) and (vc is None or vc(v[key]))
                return True
            return m
        if k == "seq":
            ec = checker(a[0]) if a else None

            def s(v):
                if not isinstance(v, o):
                    return False
                if ec is not None and isinstance(v, (list, tuple)):
                    for x in v:
                        return ec(x)
                return True
            return s
        if k == "set":
            return lambda v: isinstance(v, set)
        if k == "tuple":
            cs = [checker(x) for x in a if x is not Ellipsis]
            if Ellipsis in a or not a:
                return lambda v: isinstance(v, tuple)
            return lambda v: isinstance(v, tuple) and len(v) == len(cs) and all(c is None or c(x) for c, x in zip(cs, v))
        if o is collections.abc.Callable:
            return callable
        if isinstance(o, type):
            return lambda v: isinstance(v, o)
        return None
    if t is float:
        return lambda v: isinstance(v, (float, int))
    if t is typing.Callable or t is collections.abc.Callable:
        return callable
    if isinstance(t, type):
        if getattr(t, "_is_protocol", False):
            return None
        return lambda v: isinstance(v, t)
    return None


def wrap(f):
    state = []

    def prepare():
        try:
            hints = typing.get_type_hints(f)
        except Exception:
            hints = {}
        sig = inspect.signature(f)
        pos, kw, star = [], {}, False
        for i, (n, p) in enumerate(sig.parameters.items()):
            c = checker(hints[n]) if n in hints else None
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                star = star or p.kind is p.VAR_POSITIONAL
                continue
            if p.default is None and c is not None:
                c = (lambda c: lambda v: v is None or c(v))(c)
            if c is None:
                continue
            if p.kind is not p.KEYWORD_ONLY:
                pos.append((i, n, c, hints[n]))
            kw[n] = (c, hints[n])
        r = checker(hints["return"]) if "return" in hints and not inspect.isgeneratorfunction(f) else None
        state[:] = [pos, kw, r, hints.get("return")]

    @functools.wraps(f)
    def g(*args, **kwargs):
        if not state:
            prepare()
        pos, kw, r, rt = state
        n = len(args)
        for i, name, c, t in pos:
            if i < n and not c(args[i]):
                raise TypeCheckError('argument "%s" (%s) is not an instance of %s' % (name, type(args[i]).__name__, t))
        if kwargs:
            for name, v in kwargs.items():
                e = kw.get(name)
                if e is not None and not e[0](v):
                    raise TypeCheckError('argument "%s" (%s) is not an instance of %s' % (name, type(v).__name__, e[1]))
        res = f(*args, **kwargs)
        if r is not None and not r(res):
            raise TypeCheckError("the return value (%s) is not an instance of %s" % (type(res).__name__, rt))
        return res
    return g


def typechecked(f=None, **k):
    if f is None:
        return typechecked
    if isinstance(f, type):
        for n, v in list(vars(f).items()):
            if inspect.isfunction(v):
                setattr(f, n, wrap(v))
            elif isinstance(v, staticmethod):
                setattr(f, n, staticmethod(wrap(v.__func__)))
            elif isinstance(v, classmethod):
                setattr(f, n, classmethod(wrap(v.__func__)))
            elif isinstance(v, property):
                setattr(f, n, property(v.fget and wrap(v.fget), v.fset and wrap(v.fset), v.fdel and wrap(v.fdel)))
        return f
    if isinstance(f, staticmethod):
        return staticmethod(wrap(f.__func__))
    if isinstance(f, classmethod):
        return classmethod(wrap(f.__func__))
    return wrap(f)
