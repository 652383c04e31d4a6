"""Symbolic executor for the real ros_bt_py code.

The code of /repo is imported through vf.instrument and *executed*; values that a
harness declares symbolic are proxy objects that build z3 terms.  Whenever the
executed code needs a truth value (or has to concretise a term at a C boundary)
the solver decides which continuations are feasible under the current path
condition and every feasible one is explored (depth-first, by deterministic
re-execution).  ctx.check(cond) asks the solver for (path condition and not
cond); sat gives a counterexample, unsat discharges the obligation for every
value on that path.
"""
import itertools
import math
import random
import sys
import time
import traceback

import z3


class EngineSignal(BaseException):
    """Steering exceptions must not be caught by `except Exception` in the code."""


class PathInfeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class NonTermination(EngineSignal):
    pass


class PropertyFailed(EngineSignal):
    """Raised once a violation was recorded on this path and nothing else is possible."""


class Inconclusive(EngineSignal):
    pass


class TimeUp(Inconclusive):
    pass


class PathSkipped(EngineSignal):
    pass


CUR = None  # the active Ctx (symbolic or concrete)

_EQ = {}      # memo of enum comparisons   (z3 terms are hash-consed; the memo keeps them alive)
_SIMP = {}    # memo of simplify
_NOT = {}


def _simp(e):
    k = e.get_id()
    r = _SIMP.get(k)
    if r is None:
        if len(_SIMP) > 200000:
            _SIMP.clear()
        s = z3.simplify(e)
        c = True if z3.is_true(s) else False if z3.is_false(s) else None
        r = _SIMP[k] = (e, s, c)
    return r


def _neg(e):
    k = e.get_id()
    r = _NOT.get(k)
    if r is None:
        if len(_NOT) > 200000:
            _NOT.clear()
        r = _NOT[k] = (e, z3.Not(e))
    return r[1]


def cur():
    return CUR


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------
def is_proxy(x):
    return isinstance(type(x), type) and issubclass(type(x), Proxy)


class Proxy:
    __slots__ = ("e",)

    def __init__(self, e):
        object.__setattr__(self, "e", e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic value")


def _b(e):
    """Wrap a z3 Bool, folding constants."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Proxy):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self.e)

    def _num(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return _b(z3.simplify(self.e == o.e))
        if type(o) is bool:
            return self if o else _b(z3.Not(self.e))
        if isinstance(o, (int, SymInt)) and not isinstance(o, SymBool):
            return SymInt(self._num()) == o
        if type(o) is float:
            return SymInt(self._num()) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __and__(self, o):
        if type(o) is bool:
            return self if o else False
        if isinstance(o, SymBool):
            return _b(z3.And(self.e, o.e))
        return SymInt(self._num()) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool:
            return True if o else self
        if isinstance(o, SymBool):
            return _b(z3.Or(self.e, o.e))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool:
            return sym_not(self) if o else self
        if isinstance(o, SymBool):
            return _b(z3.Xor(self.e, o.e))
        return NotImplemented

    __rxor__ = __xor__

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bool, name):
            raise AttributeError("'bool' object has no attribute %r" % name)
        return getattr(bool(self), name)


for _op in "add radd sub rsub mul rmul floordiv rfloordiv truediv rtruediv mod rmod pow rpow lt le gt ge neg abs".split():
    def _mk(op):
        n = f"__{op}__"

        def f(self, *a):
            return getattr(SymInt(self._num()), n)(*a)
        return f
    setattr(SymBool, f"__{_op}__", _mk(_op))


def sym_not(x):
    if type(x) is SymBool:
        return SymBool(_neg(x.e))
    return not x


def sym_and(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    return _b(z3.And(*es)) if es else True


def sym_or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    return _b(z3.Or(*es)) if es else False


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def _real(x):
    """z3 Real for an int/SymInt (exact)."""
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    return z3.RealVal(x)


def _int_e(o):
    if isinstance(o, SymBool):
        return o._num()
    if isinstance(o, SymInt):
        return o.e
    if type(o) is bool:
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(int(o))
    return None


class SymInt(Proxy):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __index__(self):
        return CUR.concretize_int(self.e)

    def __int__(self):
        return CUR.concretize_int(self.e)

    def __hash__(self):
        return hash(CUR.concretize_int(self.e))

    def __float__(self):
        return float(CUR.concretize_int(self.e))

    def _bin(self, o, f):
        oe = _int_e(o)
        if oe is not None:
            return SymInt(z3.simplify(f(self.e, oe)))
        return None

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        if r is None:
            return _float_arith(self, o, "add")
        return r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: b + a)
        if r is None:
            return _float_arith(o, self, "add")
        return r

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        if r is None:
            return _float_arith(self, o, "sub")
        return r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        if r is None:
            return _float_arith(o, self, "sub")
        return r

    def __mul__(self, o):
        r = self._bin(o, lambda a, b: a * b)
        if r is None:
            return _float_arith(self, o, "mul")
        return r

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * CUR.concretize_int(self.e)
        r = self._bin(o, lambda a, b: b * a)
        if r is None:
            return _float_arith(o, self, "mul")
        return r

    def __neg__(self):
        return SymInt(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _floordiv(a, b):
        # z3 div is Euclidean-like (floor for positive divisors)
        if CUR.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return SymInt(z3.simplify(q))

    def __floordiv__(self, o):
        oe = _int_e(o)
        if oe is None:
            return _float_arith(self, o, "floordiv")
        return self._floordiv(self.e, oe)

    def __rfloordiv__(self, o):
        oe = _int_e(o)
        if oe is None:
            return _float_arith(o, self, "floordiv")
        return self._floordiv(oe, self.e)

    def __mod__(self, o):
        oe = _int_e(o)
        if oe is None:
            return _float_arith(self, o, "mod")
        q = self._floordiv(self.e, oe)
        return SymInt(z3.simplify(self.e - q.e * oe))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % "<sym>"
        oe = _int_e(o)
        if oe is None:
            return _float_arith(o, self, "mod")
        q = self._floordiv(oe, self.e)
        return SymInt(z3.simplify(oe - q.e * self.e))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return _float_arith(self, o, "truediv")

    def __rtruediv__(self, o):
        return _float_arith(o, self, "truediv")

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4:
            r = SymInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return CUR.concretize_int(self.e) ** o

    def __rpow__(self, o):
        return o ** CUR.concretize_int(self.e)

    def __and__(self, o):
        return CUR.concretize_int(self.e) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return CUR.concretize_int(self.e) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return CUR.concretize_int(self.e) ^ int(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return CUR.concretize_int(self.e) << int(o)

    def __rlshift__(self, o):
        return int(o) << CUR.concretize_int(self.e)

    def __rshift__(self, o):
        return CUR.concretize_int(self.e) >> int(o)

    def __rrshift__(self, o):
        return int(o) >> CUR.concretize_int(self.e)

    def __invert__(self):
        return SymInt(-self.e - 1)

    def _cmp(self, o, f, name):
        oe = _int_e(o)
        if oe is not None:
            return _b(z3.simplify(f(self.e, oe)))
        if type(o) is float:
            if math.isnan(o):
                return name == "ne"
            if math.isinf(o):
                return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[name]
            n, d = o.as_integer_ratio()
            return _b(z3.simplify(f(self.e * d, z3.IntVal(n))))
        if type(o) is SymFloat:
            return SymFloat.of(self)._cmp(o, name)
        if type(o) is SymReal:
            return SymReal(z3.ToReal(self.e))._c(o, f)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "eq")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "ne")

    def __round__(self, n=None):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(int, name):
            raise AttributeError("'int' object has no attribute %r" % name)
        return getattr(CUR.concretize_int(self.e), name)


F64 = z3.Float64()
RNE = z3.RNE()


def _float_arith(a, b, op):
    if type(a) is SymReal or type(b) is SymReal or getattr(CUR, "real_floats", False):
        if type(a) is not SymReal:
            ae = SymReal.of(a)
            if ae is None:
                return NotImplemented
            a = SymReal(ae)
        if SymReal.of(b) is None:
            return NotImplemented
        return {"add": a.__add__, "sub": a.__sub__, "mul": a.__mul__, "truediv": a.__truediv__, "floordiv": a.__floordiv__, "mod": a.__mod__}[op](b)
    fa, fb = SymFloat.of(a), SymFloat.of(b)
    if fa is None or fb is None:
        return NotImplemented
    if op == "add":
        return SymFloat(z3.fpAdd(RNE, fa.e, fb.e))
    if op == "sub":
        return SymFloat(z3.fpSub(RNE, fa.e, fb.e))
    if op == "mul":
        return SymFloat(z3.fpMul(RNE, fa.e, fb.e))
    if op == "truediv":
        if CUR.branch(z3.fpIsZero(fb.e)):
            raise ZeroDivisionError("float division by zero")
        return SymFloat(z3.fpDiv(RNE, fa.e, fb.e))
    if op in ("floordiv", "mod"):
        if CUR.branch(z3.fpIsZero(fb.e)):
            raise ZeroDivisionError("float floor division by zero")
        x, y = CUR.concretize_float(fa.e), CUR.concretize_float(fb.e)
        return x // y if op == "floordiv" else x % y
    raise Unsupported("float " + op)


class SymFloat(Proxy):
    """IEEE-754 binary64 value (z3 floating point theory)."""
    __slots__ = ()

    @property
    def __class__(self):
        return float

    @staticmethod
    def of(o):
        if isinstance(o, SymFloat):
            return o
        if type(o) is float:
            return SymFloat(z3.FPVal(o, F64))
        if isinstance(o, SymBool):
            return SymFloat(z3.If(o.e, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64)))
        if isinstance(o, SymInt):
            return SymFloat(z3.fpRealToFP(RNE, z3.ToReal(o.e), F64))
        if isinstance(o, int):
            return SymFloat(z3.FPVal(float(o), F64))
        return None

    def __bool__(self):
        return CUR.branch(z3.Not(z3.fpIsZero(self.e)))

    def _cmp(self, o, name):
        if isinstance(o, int) and type(o) is int and float(o) != o:
            # a Python int that is not a double: compare exactly through Real
            r = z3.fpToReal(self.e)
            v = z3.RealVal(o)
            special = z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e))
            fin = {"lt": r < v, "le": r <= v, "gt": r > v, "ge": r >= v,
                   "eq": r == v, "ne": r != v}[name]
            pos = z3.And(z3.fpIsInf(self.e), z3.fpIsPositive(self.e))
            neg = z3.And(z3.fpIsInf(self.e), z3.fpIsNegative(self.e))
            spv = {"lt": neg, "le": neg, "gt": pos, "ge": pos,
                   "eq": z3.BoolVal(False), "ne": z3.BoolVal(True)}[name]
            return _b(z3.If(special, spv, fin))
        fo = SymFloat.of(o)
        if fo is None:
            return NotImplemented
        a, b = self.e, fo.e
        e = {"lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b),
             "gt": lambda: z3.fpGT(a, b), "ge": lambda: z3.fpGEQ(a, b),
             "eq": lambda: z3.fpEQ(a, b), "ne": lambda: z3.Not(z3.fpEQ(a, b))}[name]()
        return _b(z3.simplify(e))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __add__(self, o):
        return _float_arith(self, o, "add")

    def __radd__(self, o):
        return _float_arith(o, self, "add")

    def __sub__(self, o):
        return _float_arith(self, o, "sub")

    def __rsub__(self, o):
        return _float_arith(o, self, "sub")

    def __mul__(self, o):
        return _float_arith(self, o, "mul")

    def __rmul__(self, o):
        return _float_arith(o, self, "mul")

    def __truediv__(self, o):
        return _float_arith(self, o, "truediv")

    def __rtruediv__(self, o):
        return _float_arith(o, self, "truediv")

    def __floordiv__(self, o):
        return _float_arith(self, o, "floordiv")

    def __rfloordiv__(self, o):
        return _float_arith(o, self, "floordiv")

    def __mod__(self, o):
        return _float_arith(self, o, "mod")

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % "<sym>"
        return _float_arith(o, self, "mod")

    def __pow__(self, o, m=None):
        return CUR.concretize_float(self.e) ** o

    def __rpow__(self, o):
        return o ** CUR.concretize_float(self.e)

    def __round__(self, n=None):
        return round(CUR.concretize_float(self.e), n)

    def __trunc__(self):
        return int(self)

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.e))

    def __hash__(self):
        return hash(CUR.concretize_float(self.e))

    def __float__(self):
        return CUR.concretize_float(self.e)

    def __int__(self):
        return int(CUR.concretize_float(self.e))

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(float, name):
            raise AttributeError("'float' object has no attribute %r" % name)
        return getattr(CUR.concretize_float(self.e), name)


class SymReal(Proxy):
    """A float whose arithmetic is treated as exact (only used where a harness says so)."""
    __slots__ = ()

    @property
    def __class__(self):
        return float

    @staticmethod
    def of(o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, SymInt):
            return z3.ToReal(o.e)
        if isinstance(o, (int, float)) and not isinstance(o, Proxy):
            from fractions import Fraction
            if isinstance(o, float) and not math.isfinite(o):
                return None
            f = Fraction(o)
            return z3.Q(f.numerator, f.denominator)
        return None

    def _a(self, o, f):
        oe = SymReal.of(o)
        if oe is None:
            raise Unsupported("real arithmetic with %r" % type(o))
        return SymReal(z3.simplify(f(self.e, oe)))

    def _c(self, o, f):
        oe = SymReal.of(o)
        if oe is None:
            if isinstance(o, float):
                return f(0.0, o)     # every real compares alike with NaN and the infinities
            return NotImplemented
        return _b(z3.simplify(f(self.e, oe)))

    def __add__(self, o):
        return self._a(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._a(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._a(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._a(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        oe = SymReal.of(o)
        if CUR.branch(oe == 0):
            raise ZeroDivisionError("float division by zero")
        return self._a(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if CUR.branch(self.e == 0):
            raise ZeroDivisionError("float division by zero")
        return self._a(o, lambda a, b: b / a)

    def _floordiv(self, a, b):
        if CUR.branch(b == 0):
            raise ZeroDivisionError("float floor division by zero")
        return z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o):
        oe = SymReal.of(o)
        if oe is None:
            raise Unsupported("real arithmetic with %r" % type(o))
        return SymReal(z3.simplify(self._floordiv(self.e, oe)))

    def __rfloordiv__(self, o):
        return SymReal(SymReal.of(o)).__floordiv__(self)

    def __mod__(self, o):
        oe = SymReal.of(o)
        if oe is None:
            raise Unsupported("real arithmetic with %r" % type(o))
        return SymReal(z3.simplify(self.e - oe * self._floordiv(self.e, oe)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % "<sym>"
        return SymReal(SymReal.of(o)).__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4:
            r = SymReal(z3.RealVal(1))
            for _ in range(o):
                r = r * self
            return r
        return CUR.concretize_real(self.e) ** o

    def __round__(self, n=None):
        """half to even"""
        k = 10 ** (n or 0)
        x = self.e * k
        fl = z3.ToInt(x)
        d = x - z3.ToReal(fl)
        r = z3.If(z3.Or(d < z3.Q(1, 2), z3.And(d == z3.Q(1, 2), fl % 2 == 0)), fl, fl + 1)
        return SymInt(z3.simplify(r)) if n is None else SymReal(z3.simplify(z3.ToReal(r) / k))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return SymInt(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return SymInt(z3.simplify(-z3.ToInt(-self.e)))

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __float__(self):
        return CUR.concretize_real(self.e)

    def __int__(self):
        return CUR.concretize_int(self.trunc().e)

    def is_integer(self):
        return _b(z3.simplify(z3.ToReal(z3.ToInt(self.e)) == self.e))

    def __neg__(self):
        return SymReal(-self.e)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def trunc(self):
        fl = z3.ToInt(self.e)
        return SymInt(z3.simplify(z3.If(z3.Or(self.e >= 0, z3.ToReal(fl) == self.e), fl, fl + 1)))

    def __hash__(self):
        return hash(CUR.concretize_real(self.e))


class SymStr(Proxy):
    """Symbolic unicode string (z3 sequence theory)."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    @staticmethod
    def of(o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, SymEnum):
            return z3.StringVal(CUR.concretize_enum(o))
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __bool__(self):
        return CUR.branch(z3.Length(self.e) != 0)

    def sym_len(self):
        return SymInt(z3.Length(self.e))

    def __len__(self):
        return CUR.concretize_int(z3.Length(self.e))

    def __eq__(self, o):
        oe = SymStr.of(o)
        if oe is None:
            return NotImplemented
        return _b(z3.simplify(self.e == oe))

    def __ne__(self, o):
        oe = SymStr.of(o)
        if oe is None:
            return NotImplemented
        return _b(z3.simplify(self.e != oe))

    def __lt__(self, o):
        return _b(self.e < SymStr.of(o))

    def __le__(self, o):
        return _b(self.e <= SymStr.of(o))

    def __gt__(self, o):
        return _b(SymStr.of(o) < self.e)

    def __ge__(self, o):
        return _b(SymStr.of(o) <= self.e)

    def __add__(self, o):
        oe = SymStr.of(o)
        if oe is None:
            return NotImplemented
        return SymStr(z3.Concat(self.e, oe))

    def __radd__(self, o):
        oe = SymStr.of(o)
        if oe is None:
            return NotImplemented
        return SymStr(z3.Concat(oe, self.e))

    def __contains__(self, o):
        return bool(_b(z3.Contains(self.e, SymStr.of(o))))

    def startswith(self, p, *a):
        if a:
            return self.conc().startswith(p, *a)
        if isinstance(p, tuple):
            return sym_or(*[self.startswith(q) for q in p])
        return _b(z3.simplify(z3.PrefixOf(SymStr.of(p), self.e)))

    def endswith(self, p, *a):
        if a:
            return self.conc().endswith(p, *a)
        if isinstance(p, tuple):
            return sym_or(*[self.endswith(q) for q in p])
        return _b(z3.simplify(z3.SuffixOf(SymStr.of(p), self.e)))

    def find(self, sub, *a):
        if a:
            return self.conc().find(sub, *a)
        return SymInt(z3.IndexOf(self.e, SymStr.of(sub), 0))

    def conc(self):
        return CUR.concretize_str(self.e)

    def __hash__(self):
        return hash(self.conc())

    def __iter__(self):
        return iter(self.conc())

    def __getitem__(self, i):
        return self.conc()[i]

    def __mod__(self, o):
        return self.conc() % o

    def __fspath__(self):
        return self.conc()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.conc(), name)


class SymEnum(Proxy):
    """One of a finite list of strings, chosen by a symbolic index."""
    __slots__ = ("opts",)

    def __init__(self, e, opts):
        object.__setattr__(self, "e", e)
        object.__setattr__(self, "opts", tuple(opts))

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is SymEnum:
            k = (self.e.get_id(), self.opts, o.e.get_id(), o.opts)
        elif type(o) is str:
            k = (self.e.get_id(), self.opts, o)
        else:
            return self._eq(o)
        r = _EQ.get(k)
        if r is None:
            r = _EQ[k] = (self._eq(o), self.e, o)
        return r[0]

    def _eq(self, o):
        if isinstance(o, SymEnum):
            alts = []
            for i, a in enumerate(self.opts):
                for j, b in enumerate(o.opts):
                    if a == b:
                        alts.append(z3.And(self.e == i, o.e == j))
            return _b(z3.simplify(z3.Or(*alts))) if alts else False
        if isinstance(o, SymStr):
            return o == CUR.concretize_enum(self)
        if isinstance(o, str):
            alts = [self.e == i for i, a in enumerate(self.opts) if a == o]
            return _b(z3.simplify(z3.Or(*alts))) if alts else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self):
        alts = [self.e == i for i, a in enumerate(self.opts) if a]
        return CUR.branch(z3.Or(*alts)) if alts else False

    def conc(self):
        return CUR.concretize_enum(self)

    def __hash__(self):
        return hash(self.conc())

    def __len__(self):
        return len(self.conc())

    def __iter__(self):
        return iter(self.conc())

    def __getitem__(self, i):
        return self.conc()[i]

    def __contains__(self, o):
        return o in self.conc()

    def __add__(self, o):
        return self.conc() + o

    def __radd__(self, o):
        return o + self.conc()

    def __lt__(self, o):
        return self.conc() < o

    def __gt__(self, o):
        return self.conc() > o

    def __le__(self, o):
        return self.conc() <= o

    def __ge__(self, o):
        return self.conc() >= o

    def __fspath__(self):
        return self.conc()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.conc(), name)


class SymJson(Proxy):
    """json.dumps of a value with symbolic parts; only json.loads may look inside.

    Axiom used: json.loads(json.dumps(v)) == v for JSON-representable v (keys are
    strings, tuples become lists), which is the documented contract of the stdlib.
    """
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, SymJson):
            return sym_deep_eq(self.e, o.e)
        if o == "":
            return False
        return NotImplemented

    def __hash__(self):
        raise Unsupported("hash of symbolic json")

    def __len__(self):
        raise Unsupported("len of symbolic json")

    def __getattr__(self, name):
        raise Unsupported("symbolic json: " + name)


def seq_of(x):
    """arrays (array.array, numpy, SymArray) as lists"""
    t = getattr(type(x), "tolist", None)
    return x.tolist() if t is not None else x


def sym_deep_eq(a, b):
    """Structural equality as one SymBool where possible."""
    a, b = seq_of(a), seq_of(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not is_proxy(a) and not is_proxy(b):
        if len(a) != len(b):
            return False
        return sym_and(*[sym_deep_eq(x, y) for x, y in zip(a, b)])
    if type(a) is dict and type(b) is dict:
        if set(a) != set(b):
            return False
        return sym_and(*[sym_deep_eq(a[k], b[k]) for k in a])
    r = a == b
    return False if r is NotImplemented else r


def contains_proxy(v, depth=0):
    if is_proxy(v):
        return True
    if depth > 12:
        return False
    if type(v) in (list, tuple, set):
        return any(contains_proxy(x, depth + 1) for x in v)
    if type(v) is dict:
        return any(contains_proxy(x, depth + 1) or contains_proxy(k, depth + 1) for k, x in v.items())
    return False


# --------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------
class Violation:
    def __init__(self, msg, model, kind="assert"):
        self.msg, self.model, self.kind = msg, model, kind


class SymCtx:
    symbolic = True
    SOLVER_TIMEOUT_MS = 60000

    def __init__(self, max_paths=200000, max_decisions=4000, max_conc=80, loop_limit=3000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.SOLVER_TIMEOUT_MS)
        self.max_paths, self.max_decisions = max_paths, max_decisions
        self.max_conc, self.loop_limit, self.deadline = max_conc, loop_limit, deadline
        self.decisive = None
        self.incomplete = {}
        self.n_skipped = self.n_guesses = 0
        self.trail = []          # decisions: dict(val=.., alt=bool feasible alternative pending)
        self.pos = 0
        self.vars = {}
        self.n_queries = 0
        self.n_obl = 0
        self.n_disch = 0
        self.solver_time = 0.0
        self.n_paths = 0
        self.n_nodes = 0         # symbolic states (execution-tree nodes)
        self.n_edges = 0         # transitions taken in the execution tree
        self.violations = []
        self.vmsgs = set()
        self.path_models = []
        self.reached = {}
        self.steps = 0
        self.obs = []

    # --- solver -----------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.n_queries += 1
        if r == z3.unknown:
            self.solver.set("timeout", min(self.SOLVER_TIMEOUT_MS, 5000))
            raise Inconclusive("solver returned unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def _guess(self, fn, on_path_start):
        """No verdict on this path: runs it on a few concrete values.  This may find a counterexample (which is replayed like
        any other), but is no proof: without a counterexample, the check still has no verdict."""
        global CUR
        try:
            m = self._model(self.solver.model()) if self._check() else {}
        except (Inconclusive, z3.Z3Exception):
            m = {}
        steer = {n: m[n] for n, (kind, v, extra) in self.vars.items() if n in m and kind in ("enum", "bool")}
        for k in range(10):
            if self.n_guesses > 400 or self.deadline and time.time() > self.deadline:
                return
            self.n_guesses += 1
            g = CUR = GuessCtx(m if k == 0 else steer if k < 8 else {}, self.n_guesses, self.loop_limit)
            g.real_floats = getattr(self, "real_floats", False)
            if on_path_start:
                on_path_start()
            bad = None
            try:
                fn(g)
            except (PathInfeasible, PathSkipped, Unsupported, Inconclusive):
                pass
            except PropertyFailed:
                bad = (g.failed[-1], "assert")
            except NonTermination:
                bad = ("the code does not finish within the loop bound", "nonterm")
            except Exception as e:
                where, txt = exc_origin(e)
                if where == "repo":
                    bad = ("unexpected %s escaped: %s [%s]" % (type(e).__name__, str(e)[:200], txt), "raise:" + type(e).__name__)
            if bad:
                self._violate(bad[0], g.used, bad[1])
                return

    def _live(self):
        """True when constraints must be (re)added: we are past the kept prefix."""
        return self.pos >= len(self.trail)

    def add(self, e):
        if self._live():
            self.solver.add(e)

    def branch(self, e):
        if isinstance(e, bool):
            return e
        _, e, const = _simp(e)
        if const is not None:
            return const
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return d["val"]
        if len(self.trail) >= self.max_decisions:
            raise Inconclusive("decision bound exceeded")
        if self.deadline and time.time() > self.deadline:
            raise TimeUp("time bound exceeded")
        t = self._check(e)
        if t:
            f = self._check(_neg(e))
        else:
            f = True  # the path condition itself is satisfiable
        self.n_edges += int(t) + int(f)
        self.n_nodes += 1
        self.solver.push()
        val = t
        self.solver.add(e if val else _neg(e))
        self.trail.append({"val": val, "alt": (t and f), "neg": _neg(e)})
        self.pos += 1
        return val

    def _skip(self, why):
        """This path isn't examined any further; the check has no verdict unless another path violates the property."""
        self.incomplete.setdefault(why, traceback.format_exc() if sys.exc_info()[0] else "".join(traceback.format_stack(limit=12)))
        raise PathSkipped()

    def _conc(self, e, val_of, mk, bound=None):
        """Concretise: fork over every feasible value."""
        for _ in range(bound or self.max_conc):
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                v = d["cv"]
                self.pos += 1
                if d["val"]:
                    return v
                continue
            if not self._check():
                raise PathInfeasible()
            m = self.solver.model()
            v = val_of(m.eval(e, model_completion=True))
            c = e == mk(v)
            f = self._check(z3.Not(c))
            self.n_nodes += 1
            self.n_edges += 1 + int(f)
            self.solver.push()
            self.solver.add(c)
            self.trail.append({"val": True, "alt": f, "neg": z3.Not(c), "cv": v})
            self.pos += 1
            return v
        self._skip("concretisation bound exceeded")

    def concretize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return self._conc(e, lambda v: v.as_long(), z3.IntVal)

    def concretize_str(self, e):
        e = z3.simplify(e)
        if z3.is_string_value(e):
            return _zstr(e)
        return self._conc(e, _zstr, z3.StringVal)

    def concretize_float(self, e):
        e = z3.simplify(e)
        if z3.is_fp_value(e):
            return float(_fp_to_py(e))
        return self._conc(e, lambda v: float(_fp_to_py(v)), lambda v: z3.FPVal(v, F64), 4)

    def concretize_real(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        return self._conc(e, lambda v: float((v if z3.is_rational_value(v) else v.approx(20)).as_fraction()), lambda v: SymReal.of(v), 4)

    def concretize_enum(self, s):
        return s.opts[self.concretize_int(s.e)]

    # --- inputs -----------------------------------------------------------
    def _fresh(self, name, mk, kind, extra=None):
        if name in self.vars:
            raise RuntimeError("duplicate symbolic input " + name)
        v = mk(name)
        self.vars[name] = (kind, v, extra)
        return v

    def bool(self, name):
        return SymBool(self._fresh(name, z3.Bool, "bool"))

    def int(self, name, lo=None, hi=None):
        v = self._fresh(name, z3.Int, "int")
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymInt(v)

    def float(self, name, finite=False):
        v = self._fresh(name, lambda n: z3.FP(n, F64), "float")
        if finite:
            self.add(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        return SymFloat(v)

    def real(self, name, lo=None, hi=None):
        v = self._fresh(name, z3.Real, "real")
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymReal(v)

    def str(self, name, maxlen=6, alphabet=None):
        v = self._fresh(name, z3.String, "str")
        self.add(z3.Length(v) <= maxlen)
        if alphabet is None:
            rng = z3.Range(" ", "~")
        else:
            rng = z3.Union(*[z3.Re(c) for c in alphabet]) if len(alphabet) > 1 else z3.Re(alphabet)
        self.add(z3.InRe(v, z3.Star(rng)))
        return SymStr(v)

    def enum(self, name, opts):
        opts = list(opts)
        v = self._fresh(name, z3.Int, "enum", opts)
        self.add(v >= 0)
        self.add(v < len(opts))
        return SymEnum(v, opts)

    def pick(self, name, opts):
        """A concrete element of opts, chosen symbolically (forks over all)."""
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        v = self._fresh(name, z3.Int, "int")
        self.add(v >= 0)
        self.add(v < len(opts))
        return opts[self.concretize_int(v)]

    # --- assertions ---------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool):
            if self._live():
                self.solver.add(c.e)
                if not self._check():
                    raise PathInfeasible()
        elif not c:
            raise PathInfeasible()

    def check(self, c, msg):
        live = self._live()
        if live:
            self.n_obl += 1
        if isinstance(c, SymBool):
            if not live:
                return
            if self._check(z3.Not(c.e)):
                self._violate(msg, self.solver.model())
                self.solver.add(c.e)
                if not self._check():
                    raise PropertyFailed()
                return
            self.n_disch += 1
            self.solver.add(c.e)
            return
        if c is NotImplemented:
            c = False
        if not c:
            # every path condition is satisfiable, so this is a violation
            if live:
                if not self._check():
                    raise PathInfeasible()
                self._violate(msg, self.solver.model())
            raise PropertyFailed()
        if live:
            self.n_disch += 1

    def _violate(self, msg, model, kind="assert"):
        if (msg, kind) in self.vmsgs:
            return
        self.vmsgs.add((msg, kind))
        self.violations.append(Violation(msg, model if type(model) is dict else self._model(model), kind))
        if self.decisive is not None and self.decisive(msg):
            # decided: look for further counterexamples only for a short while
            self.deadline = min(self.deadline or 1e18, time.time() + 20)

    def fail(self, msg):
        self.check(False, msg)

    def _model(self, m):
        out = {}
        for n, (kind, v, extra) in self.vars.items():
            z = m.eval(v, model_completion=True)
            out[n] = _pyval(kind, z, extra)
        return out

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.obs.append((label, value))

    def loop_tick(self):
        self.steps += 1
        if self.steps > self.loop_limit:
            raise NonTermination()

    # --- driver -------------------------------------------------------------
    def explore(self, fn, sample_every=1, max_samples=40, on_path_start=None):
        """Run fn(ctx) on every feasible path."""
        global CUR
        while True:
            self.pos = 0
            self.vars = {}
            self.obs = []
            self.steps = 0
            CUR = self
            status = "ok"
            if on_path_start:
                on_path_start()
            try:
                fn(self)
            except PathInfeasible:
                status = "infeasible"
            except PropertyFailed:
                status = "violated"
            except NonTermination:
                status = "nonterm"
                if self._check():
                    self._violate("the code does not finish within the loop bound", self.solver.model(), "nonterm")
            except PathSkipped:
                status = "skipped"
                self._guess(fn, on_path_start)
            except (Unsupported, Inconclusive) as e:
                if isinstance(e, TimeUp):
                    raise
                status = "skipped"
                self.incomplete.setdefault("%s: %s" % (type(e).__name__, e), traceback.format_exc())
                self.n_skipped += 1
                self._guess(fn, on_path_start)
                if self.n_skipped > 40:
                    break
            except Exception as e:
                where, txt = exc_origin(e)
                if where != "repo":
                    raise
                status = "raised"
                if self._check():
                    self._violate("unexpected %s escaped: %s [%s]" % (type(e).__name__, str(e)[:200], txt),
                                  self.solver.model(), "raise:" + type(e).__name__)
            if status not in ("infeasible", "skipped"):
                self.n_paths += 1
                if status == "ok" and (len(self.path_models) < max_samples and self.n_paths % sample_every == 0):
                    if self._check():
                        m = self.solver.model()
                        self.path_models.append((self._model(m), [(l, _eval_obs(m, v)) for l, v in self.obs]))
            if self.n_paths > self.max_paths:
                raise Inconclusive("path bound exceeded")
            # backtrack
            while self.trail and not self.trail[-1]["alt"]:
                self.trail.pop()
                self.solver.pop()
            if not self.trail:
                break
            d = self.trail[-1]
            self.solver.pop()
            self.solver.push()
            self.solver.add(d["neg"])
            d["val"] = not d["val"]
            d["alt"] = False
        CUR = None
        if self.incomplete:
            w = sorted(self.incomplete)[0]
            raise Inconclusive("%s\n%s" % (w, self.incomplete[w]))


def _eval_obs(m, v):
    if is_proxy(v):
        if type(v) is SymEnum:
            return v.opts[m.eval(v.e, model_completion=True).as_long()]
        if type(v) is SymJson:
            return "<json>"
        kind = {SymBool: "bool", SymInt: "int", SymFloat: "float", SymReal: "real", SymStr: "str"}[type(v)]
        return _pyval(kind, m.eval(v.e, model_completion=True), None)
    if type(v) in (list, tuple):
        return [_eval_obs(m, x) for x in v]
    if type(v) is dict:
        return {str(k): _eval_obs(m, x) for k, x in v.items()}
    return v


def _zstr(v):
    s = v.as_string()
    # z3 escapes non-printable characters as \u{..}
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda mm: chr(int(mm.group(1), 16)), s)


def _pyval(kind, z, extra):
    if kind == "bool":
        return z3.is_true(z)
    if kind in ("int", "enum"):
        return z.as_long()
    if kind == "float":
        return _fp_to_py(z)
    if kind == "real":
        fr = z.as_fraction() if z3.is_rational_value(z) else z.approx(20).as_fraction()
        return {"num": fr.numerator, "den": fr.denominator}
    if kind == "str":
        return _zstr(z)
    raise RuntimeError(kind)


def _fp_to_py(z):
    z = z3.simplify(z)
    if z3.is_fp_value(z):
        if z.isNaN():
            return "nan"
        if z.isInf():
            return "-inf" if z.isNegative() else "inf"
        if z.isZero():
            return "-0.0" if z.isNegative() else "0.0"
        sig = z.significand_as_long()
        exp = z.exponent_as_long(True)
        sign = -1.0 if z.sign() else 1.0
        if exp == 0:  # subnormal
            val = sign * sig * 2.0 ** (-1074)
        else:
            val = sign * math.ldexp((1 << 52) + sig, exp - 1023 - 52)
        return repr(val)
    raise Inconclusive("fp model value " + str(z))


REPO_MARK = "/ros_bt_py/ros_bt_py/"


def exc_origin(e):
    """Is the innermost frame of the exception in the repository's code?"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    # frames of the stubs / stdlib below a repo frame: walk up to the innermost
    # frame that belongs to either the repo or the harness layer
    for fr in reversed(tb):
        if REPO_MARK in fr.filename:
            return "repo", "%s:%d" % (fr.filename.rsplit("/", 1)[-1], fr.lineno)
        if "/verif/harness" in fr.filename or "/harness/" in fr.filename:
            return "harness", "%s:%d" % (fr.filename, fr.lineno)
    return "other", str(last)


class ReplayFailed(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class ConcCtx:
    """Runs a harness on plain Python values (the solver's assignment)."""
    symbolic = False

    def __init__(self, model):
        self.model = model
        self.obs = []
        self.failed = []
        self.reached = {}

    def _get(self, name):
        if name not in self.model:
            return None
        return self.model[name]

    def bool(self, name):
        return bool(self.model.get(name, False))

    def int(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        return v

    def float(self, name, finite=False):
        return float(self.model.get(name, "0.0"))

    def real(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            return float(lo or 0)
        return v["num"] / v["den"]

    def str(self, name, maxlen=6, alphabet=None):
        return self.model.get(name, "")

    def enum(self, name, opts):
        return list(opts)[self.model.get(name, 0)]

    def pick(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[self.model.get(name, 0)]

    def assume(self, c):
        if not c:
            raise PathInfeasible()

    def check(self, c, msg):
        if not c:
            self.failed.append(msg)
            raise PropertyFailed()

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.obs.append((label, value))

    def loop_tick(self):
        pass


class GuessCtx(ConcCtx):
    """Concrete values where the solver gave up; the values used are recorded."""

    def __init__(self, model, seed, loop_limit):
        super().__init__(model)
        self.rnd, self.used, self.steps, self.loop_limit = random.Random(seed), {}, 0, loop_limit

    def _use(self, name, mk):
        self.used[name] = v = self.model[name] if name in self.model else mk()
        return v

    def bool(self, name):
        return bool(self._use(name, lambda: self.rnd.random() < 0.5))

    def int(self, name, lo=None, hi=None):
        def mk():
            v = self.rnd.choice((0, 1, 2, 3, 7, -1, -2, -7, 10, 1000, 1 << 40, self.rnd.randint(-50, 50)))
            if lo is not None and v < lo:
                v = lo + abs(v)
            if hi is not None and v > hi:
                v = hi if lo is None else self.rnd.randint(lo, hi)
            return v
        return self._use(name, mk)

    def float(self, name, finite=False):
        return float(self._use(name, lambda: repr(self.rnd.choice((0.0, 1.0, -1.0, 0.5, -2.5, 7.25, 3.0, 1e300, self.rnd.uniform(-9, 9))))))

    def real(self, name, lo=None, hi=None):
        def mk():
            n, d = self.rnd.choice(((0, 1), (1, 1), (-1, 1), (1, 2), (-5, 2), (10, 1), (29, 4)))
            if lo is not None and n / d < lo or hi is not None and n / d > hi:
                n, d = (lo if lo is not None else hi).as_integer_ratio()
            return {"num": n, "den": d}
        v = self._use(name, mk)
        return v["num"] / v["den"]

    def str(self, name, maxlen=6, alphabet=None):
        return self._use(name, lambda: "".join(self.rnd.choice(alphabet or "ab0 ") for _ in range(self.rnd.randint(0, min(maxlen, 4)))))

    def enum(self, name, opts):
        opts = list(opts)
        return opts[self._use(name, lambda: self.rnd.randrange(len(opts)))]

    def pick(self, name, opts):
        opts = list(opts)
        return opts[0] if len(opts) == 1 else self.enum(name, opts)

    def loop_tick(self):
        self.steps += 1
        if self.steps > self.loop_limit:
            raise NonTermination()
