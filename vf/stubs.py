"""Environment model: pure-Python stand-ins for everything below ros_bt_py.

Message classes of ros_bt_py_interfaces are generated from the .msg/.srv/.action
files of the working tree (so an edited definition is seen); the rest of ROS is
modelled by its documented contract.
"""
import array as _array
import builtins
import collections
import copy
import os
import random as _random
import re
import sys
import threading as _threading
import time as _time
import types
import uuid as _uuid

import numpy

from . import engine
from .engine import SymBool, SymInt, SymFloat, SymReal, is_proxy, sym_and, sym_deep_eq, sym_not

REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
# messages
# --------------------------------------------------------------------------
PRIM = {"bool": "boolean", "byte": "octet", "char": "uint8", "float32": "float", "float64": "double",
        "int8": "int8", "uint8": "uint8", "int16": "int16", "uint16": "uint16", "int32": "int32",
        "uint32": "uint32", "int64": "int64", "uint64": "uint64", "string": "string", "wstring": "wstring"}
TYPECODE = {"int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I",
            "int64": "q", "uint64": "Q", "float32": "f", "float64": "d", "char": "B"}
DEFAULT = {"bool": bool, "byte": lambda: b"\x00", "float32": float, "float64": float, "string": str, "wstring": str}
CLASSES = {}     # (pkg, kind, name) -> class
ALIASES = {"time": "builtin_interfaces/Time", "duration": "builtin_interfaces/Duration",
           "Header": "std_msgs/Header"}
SYMBOLIC = False


class SymArray(collections.UserList):
    """array.array (variable length) or numpy.ndarray (fixed length) whose elements may be symbolic."""

    def __init__(self, typecode, it=(), fixed=False):
        super().__init__(list(it))
        self.typecode, self.fixed = typecode, fixed

    @property
    def __class__(self):
        return numpy.ndarray if self.fixed else _array.array

    def __getitem__(self, i):
        r = self.data[i]
        return SymArray(self.typecode, r, self.fixed) if isinstance(i, slice) else r

    def __deepcopy__(self, memo):
        return SymArray(self.typecode, [copy.deepcopy(x, memo) for x in self.data], self.fixed)

    __copy__ = copy = lambda self: SymArray(self.typecode, self.data, self.fixed)

    def __eq__(self, o):
        if self.fixed or type(o) is SymArray and o.fixed:
            return [x == y for x, y in zip(self.data, engine.seq_of(o))]
        if isinstance(o, _array.array):
            return engine.sym_deep_eq(self.data, o)
        return NotImplemented

    def __ne__(self, o):
        if self.fixed or type(o) is SymArray and o.fixed:
            return [x != y for x, y in zip(self.data, engine.seq_of(o))]
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    __hash__ = None

    def __array__(self, *a, **k):
        raise engine.Unsupported("conversion of a symbolic array")

    def __repr__(self):
        return "array(%r, %r)" % (self.typecode, self.data)

    def tolist(self):
        return list(self.data)


def mk_array(code, it=(), fixed=False):
    if SYMBOLIC:
        return SymArray(code, list(it), fixed)
    return numpy.array(list(it), dtype=numpy.dtype(code)) if fixed else _array.array(code, list(it))


def parse_fields(text, pkg):
    fields, consts = [], {}
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("#"):
            continue
        if not re.search(r"=\s*[\"']", line):
            line = re.sub(r"#.*", "", line).strip()
        if not line:
            continue
        m = re.match(r"^([\w/]+(?:<=\d+)?(?:\[[^\]]*\])?)\s+(\w+)\s*=\s*(.*)$", line)
        if m:
            t, n, v = m.group(1), m.group(2), m.group(3).strip()
            if t.startswith("string") or t.startswith("wstring"):
                consts[n] = v.strip("\"'")
            elif t == "bool":
                consts[n] = v.lower() in ("true", "1")
            elif t.startswith("float"):
                consts[n] = float(v)
            else:
                consts[n] = int(v, 0)
            continue
        m = re.match(r"^([\w/]+)(?:<=(\d+))?(\[[^\]]*\])?\s+(\w+)(?:\s+(.*))?$", line)
        if not m:
            raise RuntimeError("cannot parse " + line)
        base, bound, arr, name, default = m.groups()
        base = ALIASES.get(base, base)
        if base not in PRIM and "/" not in base:
            base = pkg + "/" + base
        if base.count("/") == 2:
            p = base.split("/")
            base = p[0] + "/" + p[2]
        fields.append((name, base, bound, arr, default))
    return fields, consts


def field_type_str(base, bound, arr):
    t = PRIM.get(base, base)
    if bound:
        t = "%s<%s>" % (t, bound)
    if arr:
        inner = arr[1:-1]
        if inner == "":
            return "sequence<%s>" % t
        if inner.startswith("<="):
            return "sequence<%s, %s>" % (t, inner[2:])
        return "%s[%s]" % (t, inner)
    return t


def lookup(base):
    p, n = base.split("/")
    try:
        return CLASSES[(p, "msg", n)]
    except KeyError:
        pass
    mod = __import__(p + ".msg", fromlist=["x"])
    return getattr(mod, n)


class StaleAttr(Exception):
    pass


def make_message(pkg, kind, name, text):
    fields, consts = parse_fields(text, pkg)
    if not fields:
        fields = [("structure_needs_at_least_one_member", "uint8", None, None, None)]

    meta_ns = {}
    for k, v in consts.items():
        meta_ns[k] = property(lambda cls, v=v: v)
    meta = type("Metaclass_" + name, (type,), meta_ns)
    fmap = {n: field_type_str(b, bd, a) for n, b, bd, a, _ in fields}

    def default(base, arr, dflt):
        code = TYPECODE.get(base)
        if arr:
            inner = arr[1:-1]
            n = int(inner) if inner.isdigit() else 0
            if code and n and base not in ("int8_", ):
                return mk_array(code, [0.0 if base.startswith("float") else 0] * n, True)
            if code:
                return mk_array(code)
            return [default(base, None, None) for _ in range(n)]
        if base in DEFAULT:
            v = DEFAULT[base]()
            if dflt is not None:
                v = {"bool": lambda s: s.lower() in ("true", "1"), "string": lambda s: s.strip("\"'"),
                     "float32": float, "float64": float}[base](dflt)
            return v
        if base in PRIM:
            return int(dflt, 0) if dflt else 0
        return lookup(base)()

    def init(self, **kw):
        self._check_fields = False
        for n, b, bd, a, d in fields:
            if n in kw:
                setattr(self, n, kw[n])
            else:
                setattr(self, n, default(b, a, d))

    def eq(self, other):
        if not isinstance(other, self.__class__):
            return False
        rs = []
        for n, *_ in fields:
            r = sym_deep_eq(getattr(self, n), getattr(other, n))
            if r is False:
                return False
            rs.append(r)
        return sym_and(*rs)

    def rep(self):
        return "%s.%s.%s(%s)" % (pkg, kind, name, ", ".join("%s=%r" % (n, getattr(self, n)) for n, *_ in fields))

    ns = {
        "__slots__": ["_" + n for n, *_ in fields] + ["_check_fields"],
        "_fields_and_field_types": fmap,
        "__init__": init, "__eq__": eq, "__ne__": lambda s, o: sym_not(eq(s, o)), "__repr__": rep,
        "__hash__": None,
        "get_fields_and_field_types": classmethod(lambda cls: dict(fmap)),
        "__module__": "%s.%s._%s" % (pkg, kind, re.sub(r"(?<!^)(?=[A-Z])", "_", name.split("_")[0]).lower()),
    }
    for n, b, bd, a, d in fields:
        code = TYPECODE.get(b) if a else None

        fixed = bool(a) and a[1:-1].isdigit()

        def setter(self, v, n=n, code=code, fixed=fixed):
            if code and isinstance(v, (list, tuple, _array.array, numpy.ndarray)):
                v = mk_array(code, engine.seq_of(v), fixed)
            object.__setattr__(self, "_" + n, v)
        ns[n] = property(lambda self, n=n: getattr(self, "_" + n), setter)
    cls = meta(name, (), ns)
    # constants are also reachable through instances
    for k, v in consts.items():
        if k not in ns:
            setattr(cls, "_const_" + k, v)
            type.__setattr__(cls, k, property(lambda self, v=v: v)) if False else None
    if consts:
        def ga(self, attr, consts=consts):
            if attr in consts:
                return consts[attr]
            raise AttributeError("'%s' object has no attribute '%s'" % (name, attr))
        type.__setattr__(cls, "__getattr__", ga)
    CLASSES[(pkg, kind, name)] = cls
    return cls


def make_service(pkg, name, text):
    req, res = (re.split(r"^---\s*$", text, flags=re.M) + [""])[:2]
    rq = make_message(pkg, "srv", name + "_Request", req)
    rs = make_message(pkg, "srv", name + "_Response", res)
    mod = "%s.srv._%s" % (pkg, name.lower())
    cls = type("Metaclass_" + name, (type,), {})(name, (), {"Request": rq, "Response": rs, "__module__": mod})
    CLASSES[(pkg, "srv", name)] = cls
    return cls


def make_action(pkg, name, text):
    p = (re.split(r"^---\s*$", text, flags=re.M) + ["", ""])[:3]
    g = make_message(pkg, "action", name + "_Goal", p[0])
    r = make_message(pkg, "action", name + "_Result", p[1])
    f = make_message(pkg, "action", name + "_Feedback", p[2])
    impl = type("Impl", (), {})
    cls = type("Metaclass_" + name, (type,), {})(
        name, (), {"Goal": g, "Result": r, "Feedback": f, "Impl": impl, "__module__": "%s.action._%s" % (pkg, name.lower())})
    CLASSES[(pkg, "action", name)] = cls
    return cls


BASE_MSGS = {
    "builtin_interfaces": {"Time": "int32 sec\nuint32 nanosec", "Duration": "int32 sec\nuint32 nanosec"},
    "std_msgs": {"Header": "builtin_interfaces/Time stamp\nstring frame_id", "Bool": "bool data", "Empty": "",
                 "String": "string data", "Int64": "int64 data", "Int32": "int32 data", "Int16": "int16 data",
                 "Int8": "int8 data", "UInt8": "uint8 data", "UInt16": "uint16 data", "UInt32": "uint32 data",
                 "UInt64": "uint64 data", "Float64": "float64 data", "Float32": "float32 data",
                 "Byte": "byte data",
                 "ColorRGBA": "float32 r\nfloat32 g\nfloat32 b\nfloat32 a"},
    "geometry_msgs": {"Point": "float64 x\nfloat64 y\nfloat64 z", "Quaternion": "float64 x\nfloat64 y\nfloat64 z\nfloat64 w 1",
                      "Pose": "geometry_msgs/Point position\ngeometry_msgs/Quaternion orientation"},
    "diagnostic_msgs": {"KeyValue": "string key\nstring value",
                        "DiagnosticStatus": "byte OK=0\nbyte WARN=1\nbyte ERROR=2\nbyte STALE=3\nbyte level\nstring name\nstring message\nstring hardware_id\ndiagnostic_msgs/KeyValue[] values",
                        "DiagnosticArray": "std_msgs/Header header\ndiagnostic_msgs/DiagnosticStatus[] status"},
    "action_msgs": {"GoalStatus": "int8 STATUS_UNKNOWN=0\nint8 STATUS_ACCEPTED=1\nint8 STATUS_EXECUTING=2\nint8 STATUS_CANCELING=3\nint8 STATUS_SUCCEEDED=4\nint8 STATUS_CANCELED=5\nint8 STATUS_ABORTED=6\nint8 status"},
    "example_interfaces": {"Empty": "", "Bool": "bool data", "String": "string data", "Int64": "int64 data",
                           "Float64": "float64 data"},
    "vf_msgs": {
        # shapes used by the harnesses to exercise every field kind
        "Flat": "bool b\nint32 i\nfloat64 f\nstring s\nuint8 u",
        "Nested": "vf_msgs/Flat inner\nstring label\nint16[] nums\nvf_msgs/Flat[] items\nstring<=4[<=3] names\nuint8[2] pair",
        "Enum": "uint8 A=0\nuint8 B=1\nuint8 C=7\nuint8 value",
        "SEnum": "string X=one\nstring Y=two\nstring value",
        "Two": "int32 i\nstring s",
        "Kinds": "bool b\nbyte o\nchar c\nfloat32 f\nfloat64 d\nint8 i8\nuint8 u8\nint16 i16\nuint16 u16\nint32 i32\nuint32 u32\nint64 i64\nuint64 u64\n"
                 "string s\nstring<=3 bs\nwstring w\nint32[] seq\nuint8[<=2] bseq\nint16[3] arr\nfloat32[] fseq\nstring[] strs\nstring<=2[<=2] sseq\nstring<=1[2] sarr\n"
                 "bool[<=1] bools\nbyte[2] octets\nvf_msgs/Flat m\nvf_msgs/Flat[] ms\nvf_msgs/Flat[<=1] bms\nvf_msgs/Two[2] am\nstring_msgs/Label lab\nstring_msgs/Label[] labs\nwstring_msgs/Label[1] wlab",
    },
    "string_msgs": {"Label": "string text"},
    "wstring_msgs": {"Label": "string text"},
}
BASE_SRVS = {
    "std_srvs": {"SetBool": "bool data\n---\nbool success\nstring message", "Empty": "---\n",
                 "Trigger": "---\nbool success\nstring message"},
    "example_interfaces": {"Trigger": "---\nbool success\nstring message", "AddTwoInts": "int64 a\nint64 b\n---\nint64 sum",
                           "SetBool": "bool data\n---\nbool success\nstring message"},
    "vf_msgs": {"Ask": "int32 a\nstring q\n---\nint32 total\nstring why"},
}
BASE_ACTIONS = {"example_interfaces": {"Fibonacci": "int32 order\n---\nint32[] sequence\n---\nint32[] sequence"},
                "vf_msgs": {"Mix": "int32 order\nstring tag\n---\nint32 total\nstring why\n---\nfloat64 progress"}}


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        if p not in sys.modules:
            module(p)
        setattr(sys.modules[p], c, m)
    m.__path__ = []
    return m


def install_messages():
    pk = {}
    for p, d in BASE_MSGS.items():
        for n, t in d.items():
            if p == "diagnostic_msgs" and n == "DiagnosticStatus":
                c = make_message(p, "msg", n, re.sub(r"byte (\w+)=(\d)", r"uint8 \1=\2", t))
            else:
                c = make_message(p, "msg", n, t)
            pk.setdefault((p, "msg"), {})[n] = c
    for p, d in BASE_SRVS.items():
        for n, t in d.items():
            pk.setdefault((p, "srv"), {})[n] = make_service(p, n, t)
    for p, d in BASE_ACTIONS.items():
        for n, t in d.items():
            pk.setdefault((p, "action"), {})[n] = make_action(p, n, t)
    root = os.path.join(REPO, "ros_bt_py_interfaces")
    p = "ros_bt_py_interfaces"
    try:
        with open(os.path.join(root, "CMakeLists.txt")) as f:
            built = re.sub("#.*", "", f.read())
    except OSError:
        built = None
    for kind, ext in (("msg", ".msg"), ("srv", ".srv"), ("action", ".action")):
        pk.setdefault((p, kind), {})
        d = os.path.join(root, kind)
        for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not fn.endswith(ext) or built is not None and kind + "/" + fn not in built:
                continue
            n = fn[: -len(ext)]
            with open(os.path.join(d, fn)) as f:
                text = f.read()
            try:
                pk[(p, kind)][n] = {"msg": lambda: make_message(p, "msg", n, text),
                                    "srv": lambda: make_service(p, n, text),
                                    "action": lambda: make_action(p, n, text)}[kind]()
            except RuntimeError:
                if kind == "msg":
                    raise
    for (p, kind), d in pk.items():
        extra = {}
        for (pp, kk, nn), c in CLASSES.items():
            if pp == p and kk == kind:
                extra[nn] = c
        module(p)if p not in sys.modules else None
        module(p + "." + kind, **extra)


# --------------------------------------------------------------------------
# the world: clock, middleware
# --------------------------------------------------------------------------
class World:
    """Everything outside the process; one per explored path."""

    def __init__(self):
        self.now_ns = 1_000_000_000
        self.logs = []
        self.published = []      # (topic, msg)
        self.service_ready = lambda client: True
        self.clients = []
        self.publishers = []
        self.sub_hook = None
        self.action_clients = []
        self.on_call = None
        self.calls = []          # (client, request, future)
        self.goals = []
        self.params = {}
        self.uuid_n = 0
        self.threads = []
        self.sleeps = []
        self.rate_hook = None
        self.publishers_info = lambda topic: []
        self.subs = []
        self.destroyed = []
        self.packages = {}
        self.ok = True
        self.coop = False        # threads are coroutines (see Coop)
        self.coops = []
        self.preempt = False     # Coops also pause before taking a lock


WORLD = World()


def reset_world():
    global WORLD
    WORLD = World()
    _random.seed(0)


def world():
    return WORLD


def fresh_uuid4():
    WORLD.uuid_n += 1
    return _uuid.UUID(int=(0x4000 << 64) | (0x8000 << 48) | WORLD.uuid_n)


class ClockType:
    ROS_TIME = 1
    SYSTEM_TIME = 2
    STEADY_TIME = 3


def _to_int(x):
    if type(x) is SymReal:
        return x.trunc()
    if is_proxy(x):
        return x
    return int(x)


class Duration:
    def __init__(self, *, seconds=0, nanoseconds=0):
        t = _to_int(seconds * 1000000000) if not (type(seconds) is int and seconds == 0) else 0
        t = t + _to_int(nanoseconds)
        if not is_proxy(t) and (t >= 2 ** 63 or t < -2 ** 63):
            raise OverflowError("Total nanoseconds value is too large to store in C duration.")
        self.nanoseconds = t

    def __add__(self, o):
        return Duration(nanoseconds=self.nanoseconds + o.nanoseconds) if isinstance(o, Duration) else NotImplemented

    def __sub__(self, o):
        return Duration(nanoseconds=self.nanoseconds - o.nanoseconds) if isinstance(o, Duration) else NotImplemented

    def __mul__(self, o):
        return Duration(nanoseconds=_to_int(self.nanoseconds * o))

    def __eq__(self, o):
        return self.nanoseconds == o.nanoseconds if isinstance(o, Duration) else NotImplemented

    def __lt__(self, o):
        return self.nanoseconds < o.nanoseconds if isinstance(o, Duration) else NotImplemented

    def __le__(self, o):
        return self.nanoseconds <= o.nanoseconds if isinstance(o, Duration) else NotImplemented

    def __gt__(self, o):
        return self.nanoseconds > o.nanoseconds if isinstance(o, Duration) else NotImplemented

    def __ge__(self, o):
        return self.nanoseconds >= o.nanoseconds if isinstance(o, Duration) else NotImplemented

    def __str__(self):
        return "%s nanoseconds" % (self.nanoseconds,)

    __hash__ = None

    def to_msg(self):
        c = CLASSES[("builtin_interfaces", "msg", "Duration")]
        return c(sec=self.nanoseconds // 1000000000, nanosec=self.nanoseconds % 1000000000)

    @classmethod
    def from_msg(cls, m):
        return cls(nanoseconds=m.sec * 1000000000 + m.nanosec)


class Time:
    def __repr__(self):
        return "Time(nanoseconds={0}, clock_type={1})".format(self.nanoseconds, "ROS_TIME")

    def __init__(self, *, seconds=0, nanoseconds=0, clock_type=ClockType.SYSTEM_TIME):
        if seconds < 0:
            raise ValueError("Seconds value must not be negative")
        if nanoseconds < 0:
            raise ValueError("Nanoseconds value must not be negative")
        t = _to_int(seconds * 1000000000) + _to_int(nanoseconds)
        if not is_proxy(t) and t >= 2 ** 63:
            raise OverflowError("Total nanoseconds value is too large to store in C time point.")
        self.nanoseconds = t
        self.clock_type = clock_type

    def seconds_nanoseconds(self):
        return (self.nanoseconds // 1000000000, self.nanoseconds % 1000000000)

    def __add__(self, o):
        if isinstance(o, Duration):
            return Time(nanoseconds=self.nanoseconds + o.nanoseconds, clock_type=self.clock_type)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Time):
            if self.clock_type != o.clock_type:
                raise TypeError("Can't subtract times with different clock types")
            return Duration(nanoseconds=self.nanoseconds - o.nanoseconds)
        if isinstance(o, Duration):
            return Time(nanoseconds=self.nanoseconds - o.nanoseconds, clock_type=self.clock_type)
        return NotImplemented

    def _c(self, o):
        if self.clock_type != o.clock_type:
            raise TypeError("Can't compare times with different clock types")

    def __eq__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        self._c(o)
        return self.nanoseconds == o.nanoseconds

    def __lt__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        self._c(o)
        return self.nanoseconds < o.nanoseconds

    def __le__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        self._c(o)
        return self.nanoseconds <= o.nanoseconds

    def __gt__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        self._c(o)
        return self.nanoseconds > o.nanoseconds

    def __ge__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        self._c(o)
        return self.nanoseconds >= o.nanoseconds

    __hash__ = None

    def to_msg(self):
        s, n = self.seconds_nanoseconds()
        return CLASSES[("builtin_interfaces", "msg", "Time")](sec=s, nanosec=n)

    @classmethod
    def from_msg(cls, m, clock_type=ClockType.ROS_TIME):
        return cls(nanoseconds=m.sec * 1000000000 + m.nanosec, clock_type=clock_type)


class Clock:
    clock_type = ClockType.ROS_TIME

    def now(self):
        return Time(nanoseconds=WORLD.now_ns, clock_type=ClockType.ROS_TIME)


class LogLevel:
    UNSET, DEBUG, INFO, WARN, ERROR, FATAL = 0, 10, 20, 30, 40, 50


class Logger:
    name = "stub"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            WORLD.logs.append((n, a))
            return True
        return f

    def get_child(self, *_):
        return self


class Publisher:
    def __init__(self, node, typ, topic, qos):
        self.node, self.msg_type, self.topic, self.qos_profile = node, typ, topic, qos
        self.topic_name = topic
        self.destroyed = False

    def publish(self, m):
        if self.destroyed:
            raise InvalidHandle("publisher destroyed")
        WORLD.published.append((self, m))

    def destroy(self):
        self.destroyed = True


class Subscription:
    def __init__(self, node, typ, topic, cb, qos):
        self.node, self.msg_type, self.topic, self.callback, self.qos = node, typ, topic, cb, qos
        self.topic_name = topic
        self.destroyed = False


class Future:
    def __init__(self, *, executor=None):
        self._done = False
        self._result = None
        self._exc = None
        self._cancelled = False
        self._cbs = []

    def done(self):
        return self._done

    def cancelled(self):
        return self._cancelled

    def cancel(self):
        if not self._done:
            self._cancelled = True

    def result(self):
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self):
        return self._exc

    def set_result(self, r):
        self._result = r
        self._done = True
        self._fire()

    def set_exception(self, e):
        self._exc = e
        self._done = True
        self._fire()

    def add_done_callback(self, cb):
        if self._done:
            cb(self)
        else:
            self._cbs.append(cb)

    def _fire(self):
        cbs, self._cbs = self._cbs, []
        for c in cbs:
            c(self)


class Client:
    def __init__(self, node, typ, name, **kw):
        self.node, self.srv_type, self.srv_name = node, typ, name
        self.service_name = name
        self.destroyed = False

    def service_is_ready(self):
        return WORLD.service_ready(self)

    def wait_for_service(self, timeout_sec=None):
        return WORLD.service_ready(self)

    def call_async(self, req):
        f = Future()
        WORLD.calls.append((self, req, f))
        return f

    def remove_pending_request(self, f):
        WORLD.destroyed.append(("pending", f))

    def destroy(self):
        self.destroyed = True


class GoalHandle:
    """rclpy ClientGoalHandle"""

    def __init__(self, rec):
        self.rec = rec
        self.accepted = rec.get("accepted", True)
        self.status = 0
        self.goal_id = object()

    def get_result_async(self):
        f = Future()
        self.rec["result_futures"].append(f)
        return f

    def cancel_goal_async(self):
        f = Future()
        self.rec["cancel_futures"].append(f)
        return f


class ActionClient:
    def __init__(self, node=None, action_type=None, action_name=None, **kw):
        self.node, self.action_type, self.action_name = node, action_type, action_name
        self.destroyed = False
        WORLD.action_clients.append(self)

    def server_is_ready(self):
        return WORLD.service_ready(self)

    def wait_for_server(self, timeout_sec=None):
        return WORLD.service_ready(self)

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        f = Future()
        WORLD.goals.append({"client": self, "goal": goal, "future": f, "feedback": feedback_callback,
                            "result_futures": [], "cancel_futures": []})
        return f

    def destroy(self):
        self.destroyed = True
        WORLD.destroyed.append(("action_client", self))


class InvalidHandle(Exception):
    pass


class Rate:
    def __init__(self, node, freq):
        self.freq = freq

    def sleep(self):
        if WORLD.rate_hook is not None:
            WORLD.rate_hook(self)
        elif WORLD.coop and Coop.current is not None:
            Coop.pause("sleep")
        else:
            WORLD.sleeps.append(self.freq)

    def destroy(self):
        pass


class Parameter:
    def __init__(self, v):
        self.value = v

    def get_parameter_value(self):
        return self


class Node:
    def __init__(self, name="stub", **kw):
        self._name = name
        self.executor = None

    def get_name(self):
        return self._name

    def get_namespace(self):
        return "/"

    def get_fully_qualified_name(self):
        return "/" + self._name

    def get_clock(self):
        return Clock()

    def get_logger(self):
        return Logger()

    def create_publisher(self, msg_type, topic, qos_profile=10, **kw):
        p = Publisher(self, msg_type, topic, qos_profile)
        WORLD.publishers.append(p)
        return p

    def create_subscription(self, msg_type, topic, callback, qos_profile=10, **kw):
        s = Subscription(self, msg_type, topic, callback, qos_profile)
        WORLD.subs.append(s)
        return s

    def create_client(self, srv_type, srv_name, **kw):
        c = Client(self, srv_type, srv_name, **kw)
        WORLD.clients.append(c)
        return c

    def create_service(self, *a, **k):
        return types.SimpleNamespace(args=a, kwargs=k)

    def create_timer(self, period, cb=None, **kw):
        return types.SimpleNamespace(period=period, callback=cb, cancel=lambda: None, destroy=lambda: None,
                                     reset=lambda: None, is_canceled=lambda: False)

    def create_rate(self, frequency, clock=None):
        if frequency <= 0 or frequency != frequency:
            raise ValueError("frequency must be > 0")
        return Rate(self, frequency)

    def destroy_rate(self, r):
        return True

    def destroy_timer(self, t):
        return True

    def destroy_client(self, c):
        c.destroyed = True
        WORLD.destroyed.append(("client", c))
        return True

    def destroy_subscription(self, s):
        if WORLD.sub_hook is not None:
            WORLD.sub_hook(s)
        s.destroyed = True
        WORLD.destroyed.append(("subscription", s))
        return True

    def destroy_publisher(self, p):
        p.destroyed = True
        WORLD.destroyed.append(("publisher", p))
        return True

    def resolve_topic_name(self, t, **kw):
        return t if t.startswith("/") else "/" + t

    resolve_service_name = resolve_topic_name

    def get_publishers_info_by_topic(self, t, **kw):
        return WORLD.publishers_info(t)

    get_subscriptions_info_by_topic = get_publishers_info_by_topic

    def has_parameter(self, n):
        return n in WORLD.params

    def get_parameter(self, n):
        return Parameter(WORLD.params.get(n))

    def get_topic_names_and_types(self, **kw):
        return []

    get_service_names_and_types = get_topic_names_and_types


class QoSProfile:
    def __init__(self, **kw):
        self.kw = kw
        self.__dict__.update(kw)

    def __eq__(self, o):
        return isinstance(o, QoSProfile) and self.kw == o.kw

    __hash__ = None


class _Any:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return n


class CoopKilled(BaseException):
    pass


class Coop:
    """A thread of the modelled program: runs only between resume() and the next pause, so the
    harness decides every switch.  An OS thread carries the stack; exactly one of them ever runs."""

    current = None

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name
        self.started = self.done = self.killed = False
        self.exc = self.at = self.waiting = None
        self._go, self._back = _threading.Semaphore(0), _threading.Semaphore(0)
        WORLD.coops.append(self)

    def _run(self):
        self._go.acquire()
        try:
            if not self.killed:
                self.fn()
        except BaseException as e:
            self.exc = e
        self.done, self.at = True, None
        self._back.release()

    def resume(self):
        """Run to the next pause or to the end; what it waits for is then in self.at."""
        if self.done:
            return
        if not self.started:
            self.started = True
            t = _threading.Thread(target=self._run, daemon=True)
            t.start()
        prev, Coop.current = Coop.current, self
        self._go.release()
        self._back.acquire()
        Coop.current = prev
        if self.done and isinstance(self.exc, engine.EngineSignal) and not self.killed:
            raise self.exc

    @staticmethod
    def pause(at):
        c = Coop.current
        if c is None:
            return
        c.at = at
        c._back.release()
        c._go.acquire()
        if c.killed:
            raise CoopKilled()

    def kill(self):
        self.killed = True
        n = 0
        while self.started and not self.done and n < 50:
            self.resume()
            n += 1




class coop:
    """with coop(): threads of the code under test are Coops, none survives the block."""

    def __enter__(self):
        WORLD.coop = True

    def __exit__(self, *a):
        for c in WORLD.coops:
            c.kill()
        WORLD.coop = False


class FakeThread:
    """Threads are recorded; the harness decides when (and whether) they run."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.started = self.finished = False
        self.co = None
        self.name = name
        self.daemon = daemon
        self.exc = None

    def start(self):
        if self.started:
            raise RuntimeError("threads can only be started once")
        self.started = True
        WORLD.threads.append(self)
        if WORLD.coop:
            self.co = Coop(self._body)

    def _body(self):
        try:
            self.target(*self.args, **self.kwargs)
        except Exception as e:
            self.exc = e
        self.finished = True

    def run_now(self):
        """Run the thread body to completion (called by the harness)."""
        if self.finished or not self.started:
            return
        self.running = True
        try:
            self.target(*self.args, **self.kwargs)
        except Exception as e:
            self.exc = e
        self.finished = True

    def is_alive(self):
        return self.started and not self.finished

    def join(self, timeout=None):
        if not self.started:
            raise RuntimeError("cannot join thread before it is started")
        if WORLD_JOIN[0] is not None:
            WORLD_JOIN[0](self, timeout)
        elif self.co is not None:
            # waits for four periods at most: run the thread that far
            for _ in range(4):
                if not self.finished:
                    if Coop.current is self.co:
                        raise RuntimeError("cannot join current thread")
                    self.co.resume()
        elif not self.finished:
            self.run_now()


WORLD_JOIN = [None]


class StubLock:
    def __init__(self):
        self.n = 0
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = Coop.current
        if WORLD.preempt and me is not None:
            Coop.pause("lock")
        while self.n and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if me is None or not WORLD.coop:
                raise engine.NonTermination()
            me.waiting = self
            Coop.pause("blocked")
        if me is not None:
            me.waiting = None
        self.n += 1
        self.owner = me
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    reentrant = False


class StubRLock(StubLock):
    reentrant = True


def _shim_module(real, **over):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    m.__dict__.update(over)
    return m


class FakeTime:
    @staticmethod
    def sleep(s):
        WORLD.sleeps.append(s)

    @staticmethod
    def time():
        return WORLD.now_ns / 1e9

    @staticmethod
    def time_ns():
        return WORLD.now_ns

    monotonic = time
    perf_counter = time


# ---- json over symbolic values ---------------------------------------------
def _jsonable(v, default, skipkeys):
    if is_proxy(v) or v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [_jsonable(x, default, skipkeys) for x in v]
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if isinstance(k, str):
                out[k] = _jsonable(x, default, skipkeys)
            elif isinstance(k, bool) or k is None or isinstance(k, (int, float)):
                import json
                out[json.dumps(k)] = _jsonable(x, default, skipkeys)
            elif not skipkeys:
                raise TypeError("keys must be str, int, float, bool or None")
        return out
    if default is not None:
        return _jsonable(default(v), default, skipkeys)
    raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)


def sym_dumps(obj, *a, **kw):
    import json
    if engine.contains_proxy(obj) or SYMBOLIC and _deep_sym(obj):
        v = _jsonable(obj, kw.get("default"), kw.get("skipkeys", False))
        return engine.SymJson(v)
    return json.dumps(obj, *a, **kw)


def _deep_sym(o):
    return engine.contains_proxy(o)


def sym_loads(s, *a, **kw):
    import json
    if type(s) is engine.SymJson:
        return copy.deepcopy(s.e)
    if type(s).__name__ == "SymNumText":
        return s.e
    if is_proxy(s):
        s = s.conc()
    return json.loads(s, *a, **kw)


def sym_json_module():
    import json
    return _shim_module(json, dumps=sym_dumps, loads=sym_loads)


def sym_random_module():
    """random: any value of the documented range (decided by the harness context)."""
    def randrange(start, stop=None, step=1):
        c = engine.CUR
        if stop is None:
            start, stop = 0, start
        hook = getattr(WORLD, "randrange", None)
        if hook is not None:
            return hook(start, stop, step)
        return _random.randrange(start, stop, step)

    def randint(a, b):
        return randrange(a, b + 1)

    def rand():
        hook = getattr(WORLD, "random", None)
        return hook() if hook is not None else _random.random()

    def uniform(a, b):
        return a + (b - a) * rand()
    return _shim_module(_random, randrange=randrange, randint=randint, random=rand, uniform=uniform)


class PackageNotFoundError(KeyError):
    pass


def get_package_share_directory(package_name, print_warning=True):
    name = package_name
    if name in WORLD.packages:
        return WORLD.packages[name]
    raise PackageNotFoundError(name)


def _get_interface(identifier):
    import importlib
    parts = identifier.split("/")
    if len(parts) == 2:
        parts = [parts[0], "msg", parts[1]]
    if len(parts) != 3 or not all(parts):
        raise ValueError("Invalid interface identifier '%s'" % identifier)
    mod = importlib.import_module(parts[0] + "." + parts[1])
    return getattr(mod, parts[2])


def _is_message(i):
    return hasattr(i, "get_fields_and_field_types") and hasattr(i, "_fields_and_field_types")


def _is_service(i):
    return hasattr(i, "Request") and hasattr(i, "Response")


def _is_action(i):
    return hasattr(i, "Goal") and hasattr(i, "Result") and hasattr(i, "Feedback")


def _typed(pred, what):
    def f(identifier):
        i = _get_interface(identifier)
        if not pred(i):
            raise ValueError("Expected the full name of a %s, got '%s'" % (what, identifier))
        return i
    return f


def _msg_to_dict(m):
    if hasattr(m, "get_fields_and_field_types"):
        return {n: _msg_to_dict(getattr(m, n)) for n in m.get_fields_and_field_types()}
    if isinstance(m, (list, tuple, _array.array, numpy.ndarray)):
        return [_msg_to_dict(x) for x in engine.seq_of(m)]
    if isinstance(m, bytes):
        return m
    return m


def _message_to_yaml(m, **kw):
    import yaml
    return yaml.dump(_msg_to_dict(m), sort_keys=False, allow_unicode=True)


def _set_message_fields(msg, values, **kw):
    try:
        items = values.items()
    except AttributeError:
        raise TypeError("Value '%s' is expected to be a dictionary but is a %s" % (values, type(values).__name__))
    ft = msg.get_fields_and_field_types()
    for name, v in items:
        cur = getattr(msg, name)      # AttributeError for unknown fields, as in ROS
        t = ft[name]
        if hasattr(cur, "get_fields_and_field_types"):
            sub = type(cur)()
            _set_message_fields(sub, v)
            v = sub
        elif t.startswith("sequence<") or t.endswith("]"):
            inner = re.match(r"sequence<([\w/<>]+?)(?:, \d+)?>$|([\w/<>]*)\[\d+\]$", t)
            it = inner.group(1) or inner.group(2)
            if "/" in it:
                out = []
                for x in v:
                    sub = lookup(it)()
                    _set_message_fields(sub, x)
                    out.append(sub)
                v = out
            else:
                v = list(v)
        else:
            v = type(cur)(v) if not is_proxy(v) else v
        setattr(msg, name, v)
    return []


def sym_math_module():
    """math with exact models of the functions that have one; anything else rejects symbolic values."""
    import math as _math
    import z3

    def fsum(it):
        xs = list(it)
        if not any(is_proxy(x) for x in xs):
            return _math.fsum(xs)
        r = 0
        for x in xs:
            r = r + x
        return r

    def fabs(x):
        if type(x) in (SymInt, SymReal):
            return -x if x < 0 else x
        return abs(x) if is_proxy(x) else _math.fabs(x)

    def floor(x):
        if type(x) is SymInt:
            return x
        if type(x) is SymReal:
            return SymInt(z3.ToInt(x.e))
        return _math.floor(x)

    def ceil(x):
        if type(x) is SymInt:
            return x
        if type(x) is SymReal:
            return SymInt(-z3.ToInt(-x.e))
        return _math.ceil(x)

    def float_pred(n, a):
        if n in ("isnan", "isinf", "isfinite") and len(a) == 1:
            if type(a[0]) in (SymInt, SymReal):
                return n == "isfinite"
            if type(a[0]) is SymFloat:
                e = a[0].e
                return engine._b({"isnan": z3.fpIsNaN(e), "isinf": z3.fpIsInf(e), "isfinite": z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e)))}[n])
        return None

    over = {"fsum": fsum, "fabs": fabs, "floor": floor, "ceil": ceil}
    for n in dir(_math):
        f = getattr(_math, n)
        if n in over or not callable(f) or n.startswith("_"):
            continue

        def mk(f, n):
            def g(*a):
                r = float_pred(n, a)
                if r is not None:
                    return r
                if any(is_proxy(x) and type(x) not in (SymInt, SymFloat, SymReal) for x in a):
                    raise engine.Unsupported("math." + n)
                return f(*[float(x) if is_proxy(x) and type(x) is not SymInt else x for x in a])
            return g
        over[n] = mk(f, n)
    return _shim_module(_math, **over)


def install(symbolic, shims):
    global SYMBOLIC
    SYMBOLIC = symbolic
    install_messages()
    import builtins as _bi
    ct = types.SimpleNamespace(ROS_TIME=1, SYSTEM_TIME=2, STEADY_TIME=3)
    rclpy = module("rclpy", ok=lambda **k: WORLD.ok, init=lambda **k: None, shutdown=lambda **k: None)
    module("rclpy.node", Node=Node, Publisher=Publisher, Rate=Rate)
    module("rclpy.clock", Clock=Clock, ClockType=ClockType)
    module("rclpy.time", Time=Time)
    module("rclpy.duration", Duration=Duration)
    module("rclpy.logging", get_logger=lambda n="": Logger(), LoggingSeverity=LogLevel)
    module("rclpy.publisher", Publisher=Publisher)
    module("rclpy.subscription", Subscription=Subscription)
    module("rclpy.client", Client=Client)
    module("rclpy.task", Future=Future)
    module("rclpy.timer", Rate=Rate)
    module("rclpy.exceptions", InvalidHandle=InvalidHandle, ROSInterruptException=type("ROSInterruptException", (Exception,), {}))
    module("rclpy.callback_groups", ReentrantCallbackGroup=type("ReentrantCallbackGroup", (), {}),
           MutuallyExclusiveCallbackGroup=type("MutuallyExclusiveCallbackGroup", (), {}))
    module("rclpy.executors", MultiThreadedExecutor=type("MultiThreadedExecutor", (), {}))
    qa = _Any()
    module("rclpy.qos", QoSProfile=QoSProfile, QoSReliabilityPolicy=qa, QoSDurabilityPolicy=qa, QoSHistoryPolicy=qa,
           ReliabilityPolicy=qa, DurabilityPolicy=qa, HistoryPolicy=qa, LivelinessPolicy=qa,
           QoSPresetProfiles=qa, qos_profile_system_default=10)
    module("rclpy.impl", rcutils_logger=types.SimpleNamespace(RcutilsLogger=Logger, _internal_callers=[]))
    sys.modules["rclpy.impl.rcutils_logger"] = sys.modules["rclpy.impl"].rcutils_logger
    module("rclpy.action", get_action_names_and_types=lambda n: [])
    module("rclpy.action.client", ActionClient=ActionClient, ClientGoalHandle=GoalHandle)
    rclpy.action.ActionClient = ActionClient
    ament = module("ament_index_python", get_package_share_directory=get_package_share_directory,
                   get_packages_with_prefixes=lambda: dict(WORLD.packages), PackageNotFoundError=PackageNotFoundError)
    module("ament_index_python.packages", get_package_share_directory=get_package_share_directory,
           PackageNotFoundError=PackageNotFoundError)
    module("rclpy.utilities", ok=lambda **k: WORLD.ok, ament_index_python=ament)
    module("rclpy.parameter", Parameter=Parameter)

    def ifaces(kind):
        def f(pkgs=None):
            out = {}
            for (p, k, n) in CLASSES:
                if k == kind and "_" not in n and (not pkgs or p in pkgs):
                    out.setdefault(p, []).append(kind + "/" + n)
            return out
        return f
    rp = module("rosidl_runtime_py", get_message_interfaces=ifaces("msg"), get_service_interfaces=ifaces("srv"),
                get_action_interfaces=ifaces("action"), message_to_yaml=_message_to_yaml,
                set_message_fields=_set_message_fields,
                get_interface_packages=lambda: {p: [] for (p, _, _) in CLASSES},
                message_to_ordereddict=_msg_to_dict)
    module("rosidl_runtime_py.utilities", get_interface=_get_interface, get_message=_typed(_is_message, "message"),
           get_service=_typed(_is_service, "service"), get_action=_typed(_is_action, "action"),
           is_message=_is_message, is_service=_is_service, is_action=_is_action)
    module("rosidl_runtime_py.set_message", set_message_fields=_set_message_fields)
    if symbolic or os.environ.get("VERIF_NO_TYPEGUARD"):
        from . import typecheck
        module("typeguard", typechecked=typecheck.typechecked, TypeCheckError=typecheck.TypeCheckError,
               check_type=lambda v, t, **k: v, suppress_type_checks=lambda *a, **k: None)
    import importlib.metadata as md
    real_version = md.version

    def version(n):
        if n == "ros_bt_py":
            import xml.etree.ElementTree as _et
            try:
                return _et.parse(os.path.join(REPO, "ros_bt_py", "package.xml")).find("version").text.strip()
            except (OSError, AttributeError):
                pass
            return "0.0.0"
        return real_version(n)
    md.version = version
    _uuid.uuid4 = fresh_uuid4
    shims["threading"] = _shim_module(_threading, Thread=FakeThread, Lock=StubLock, RLock=StubRLock)
    shims["time"] = _shim_module(_time, sleep=FakeTime.sleep, time=FakeTime.time, time_ns=FakeTime.time_ns,
                                 monotonic=FakeTime.time, perf_counter=FakeTime.time)
    shims["random"] = sym_random_module()
    if symbolic:
        shims["json"] = sym_json_module()
        shims["math"] = sym_math_module()
