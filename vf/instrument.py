"""Import hook that loads ros_bt_py from /repo's working tree.

symbolic mode: the AST is rewritten so that the few Python builtins that insist on
concrete C-level values go through proxies-aware versions, and loops are counted.
concrete mode (replay): the source is compiled unchanged.
In both modes the environment modules (rclpy, ROS messages, threading, time, ...)
are the stubs of vf.stubs.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

import z3

from . import engine
from .engine import (Proxy, SymBool, SymEnum, SymFloat, SymInt, SymJson, SymReal, SymStr,
                     is_proxy, sym_not, sym_or, _b)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_DIR = os.path.join(REPO, "ros_bt_py", "ros_bt_py")

FUNCS = set()          # functions of the repo executed in this process
SHIMS = {}             # module name -> replacement, for imports made by repo code

CALLS = {"len", "int", "float", "str", "type", "repr", "round", "bool", "hash", "range", "isinstance", "getattr",
         "sorted", "min", "max", "any", "all", "abs", "callable", "id"} - {"bool", "hash", "range", "sorted", "min",
         "max", "any", "all", "abs", "callable", "id", "isinstance"}
DIRECT = set(dir(builtins))


def vf_len(x):
    if type(x) is SymStr:
        return x.sym_len()
    return builtins.len(x)


def vf_int(*a, **k):
    if a and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return SymInt(x._num())
        if t is SymReal:
            return x.trunc()
        if t is SymStr and builtins.len(a) == 1:
            if is_int_text(x):
                return SymInt(z3.simplify(int_of_str(x.e)))
            return builtins.int(x.conc())
        if t is SymEnum:
            return builtins.int(x.conc(), *a[1:])
    return builtins.int(*a, **k)


def is_int_text(x):
    return engine.CUR.branch(z3.InRe(x.e, z3.Concat(z3.Option(z3.Re("-")), z3.Plus(z3.Range("0", "9")))))


def int_of_str(e):
    return z3.If(z3.PrefixOf("-", e), -z3.StrToInt(z3.SubString(e, 1, z3.Length(e) - 1)), z3.StrToInt(e))


class SymNumText(Proxy):
    """str(x) of a symbolic number: text whose only meaning is the number it spells.

    Axiom used: int(str(i)) == i and float(str(f)) == f (repr round trip, documented)."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SymNumText:
            return self.e == o.e
        if o == "":
            return False
        if type(self.e) is SymInt:
            try:
                v = builtins.int(o)
            except ValueError:
                return False
            return (self.e == v) if builtins.str(v) == o else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(self.conc())

    def __len__(self):
        return builtins.len(self.conc())

    def conc(self):
        if type(self.e) is SymInt:
            return builtins.str(engine.CUR.concretize_int(self.e.e))
        raise engine.Unsupported("text of symbolic float")

    def __add__(self, o):
        return self.conc() + o

    def __radd__(self, o):
        return o + self.conc()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)


_vf_int0 = vf_int


def vf_int(*a, **k):  # noqa: F811
    if a and type(a[0]) is SymNumText:
        x = a[0].e
        if type(x) is SymInt:
            return x
        raise ValueError("invalid literal for int() with base 10")
    return _vf_int0(*a, **k)


def vf_float(*a):
    if a:
        x = a[0]
        t = type(x)
        if t in (SymFloat, SymReal):
            return x
        if t in (SymInt, SymBool):
            if engine.CUR is not None and getattr(engine.CUR, "real_floats", False):
                return SymReal(SymReal.of(x if t is SymInt else SymInt(x._num())))
            return SymFloat.of(x)
        if t is SymNumText:
            return vf_float(x.e)
        if t in (SymStr, SymEnum):
            return builtins.float(x.conc())
    return builtins.float(*a)


def vf_str(*a, **k):
    if builtins.len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t in (SymStr, SymEnum, SymJson, SymNumText):
            return x
        if t in (SymInt, SymFloat):
            return SymNumText(x)
        if t is SymBool:
            return "True" if x else "False"
    return builtins.str(*a, **k)


_TYPES = {SymBool: bool, SymInt: int, SymFloat: float, SymReal: float, SymStr: str, SymEnum: str,
          SymJson: str, SymNumText: str}


def vf_type(*a, **k):
    if builtins.len(a) == 1 and not k:
        return _TYPES.get(type(a[0]), type(a[0]))
    return builtins.type(*a, **k)


def vf_repr(x):
    return builtins.repr(x)


def vf_round(*a):
    if a and type(a[0]) is SymReal:
        return a[0].__round__(*a[1:])
    return builtins.round(*a)


def vf_getattr(o, name, *d):
    if is_proxy(name):
        name = name.conc()
    return builtins.getattr(o, name, *d)


def vf_in(a, b):
    t = type(b)
    if t in (list, tuple):
        if is_proxy(a) or any(is_proxy(x) for x in b):
            rs = []
            for x in b:
                if x is a:
                    return True
                r = x == a
                rs.append(False if r is NotImplemented else r)
            return sym_or(*rs)
    elif t in (set, frozenset) and is_proxy(a):
        return sym_or(*[x == a for x in sorted(b, key=repr)])
    elif t is dict and is_proxy(a):
        return sym_or(*[x == a for x in b])
    elif isinstance(b, type({}.keys())) and is_proxy(a):
        return sym_or(*[x == a for x in b])
    elif t is str and is_proxy(a):
        return SymStr(z3.StringVal(b)).__contains__(a)
    elif t is SymStr:
        return _b(z3.simplify(z3.Contains(b.e, SymStr.of(a))))
    return a in b


def vf_not_in(a, b):
    return sym_not(vf_in(a, b))


def vf_is(a, b):
    if type(a) is SymBool and type(b) in (bool, SymBool) or type(b) is SymBool and type(a) is bool:
        return a == b
    if type(a) is SymEnum and type(b) in (str, SymEnum) or type(b) is SymEnum and type(a) is str:
        return a == b
    return a is b


def vf_is_not(a, b):
    return sym_not(vf_is(a, b))


def vf_not(a):
    if type(a) is SymBool:
        return sym_not(a)
    return not a


def vf_fn(f):
    try:
        return FN.get(f, f)
    except TypeError:
        return f


FN = {len: vf_len, int: vf_int, float: vf_float, str: vf_str, repr: vf_repr, round: vf_round, getattr: vf_getattr}


def vf_loop():
    c = engine.CUR
    if c is not None:
        c.loop_tick()
    return True


def vf_enter(name):
    FUNCS.add(name)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = self.modname + ":" + ".".join(self.stack)
        self.stack.pop()
        ent = ast.Expr(ast.Call(ast.Name("_vf_enter", ast.Load()), [ast.Constant(q)], []))
        body = node.body
        at = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant) and isinstance(body[0].value.value, str):
            at = 1
        node.body = body[:at] + [ast.copy_location(ent, body[0])] + body[at:]
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _loop(self, node):
        self.generic_visit(node)
        t = ast.Expr(ast.Call(ast.Name("_vf_loop", ast.Load()), [], []))
        node.body = [ast.copy_location(t, node.body[0])] + node.body
        return node

    visit_For = _loop
    visit_While = _loop

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALLS:
            node.func = ast.copy_location(ast.Name("_vf_" + node.func.id, ast.Load()), node.func)
        elif (isinstance(node.func, ast.Name) and node.func.id not in DIRECT and not node.func.id.startswith("_vf_")
                or isinstance(node.func, ast.Subscript)
                or isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "self"):
            # a builtin called through a variable: converter = int; converter(x)
            node.func = ast.copy_location(ast.Call(ast.Name("_vf_fn", ast.Load()), [node.func], []), node.func)
        if isinstance(node.func, ast.Name) and node.func.id == "map" and node.args:
            node.args[0] = ast.copy_location(ast.Call(ast.Name("_vf_fn", ast.Load()), [node.args[0]], []), node.args[0])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name("_vf_not", ast.Load()), [node.operand], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            n = {ast.In: "_vf_in", ast.NotIn: "_vf_not_in", ast.Is: "_vf_is", ast.IsNot: "_vf_is_not"}.get(type(op))
            if n:
                return ast.copy_location(
                    ast.Call(ast.Name(n, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node

    def visit_AnnAssign(self, node):
        # annotations stay untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


VF_GLOBALS = {
    "_vf_len": vf_len, "_vf_int": vf_int, "_vf_float": vf_float, "_vf_str": vf_str, "_vf_type": vf_type,
    "_vf_repr": vf_repr, "_vf_round": vf_round, "_vf_getattr": vf_getattr, "_vf_in": vf_in,
    "_vf_not_in": vf_not_in, "_vf_is": vf_is, "_vf_is_not": vf_is_not, "_vf_not": vf_not,
    "_vf_loop": vf_loop, "_vf_fn": vf_fn, "_vf_enter": vf_enter,
}


def _shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIMS:
            return SHIMS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path, symbolic):
        self.path, self.symbolic = path, symbolic

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError  # never use cached bytecode

    def get_code(self, fullname):
        src = self.get_data(self.path).decode()
        if not self.symbolic:
            return compile(src, self.path, "exec", dont_inherit=True)
        tree = ast.parse(src, self.path)
        tree = Rewriter(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        bd = dict(vars(builtins))
        bd["__import__"] = _shim_import
        bd["print"] = lambda *a, **k: None
        bd.update(VF_GLOBALS)
        module.__dict__["__builtins__"] = bd
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "ros_bt_py" and not fullname.startswith("ros_bt_py."):
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(PKG_DIR, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fn, self.symbolic), submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=Loader(fn, self.symbolic))
        return None


def install(symbolic):
    sys.dont_write_bytecode = True
    from . import stubs
    stubs.install(symbolic, SHIMS)
    sys.meta_path.insert(0, Finder(symbolic))
