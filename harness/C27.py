"""Nodes that format text, read files, parameters and constants, and take messages apart or put them together."""
import os
import shutil
import tempfile

from harness.nodes import *
from ros_bt_py.nodes.format import FormatString, FormatStringList
from ros_bt_py.nodes.file import YamlList, YamlDict
from ros_bt_py.ros_nodes.param import RosParam
from ros_bt_py.ros_nodes.enum import EnumFields
from ros_bt_py.ros_nodes.message_converters import MessageToFields, FieldsToMessage
from vf_msgs.msg import Two, Flat, Nested, Enum, SEnum
from vf_msgs.srv import Ask

ASSUMPTIONS = ["files don't change while a node keeps their content", "format strings, files and their names are chosen from the lists in the harness"]
# template, value for {"name": 12, "b": -3} (None: no value)
FMT = [("", ""), ("plain", "plain"), ("{name}", "12"), ("a{b}c{name}", "a-3c12"), ("{{x}}", "{x}"), ("{name:04d}", "0012"), ("{name!r}", "12"), ("{name!s:>4}", "  12"), ("{name!a}", "12"),
       ("{name!u}", "12"), ("{b!l}", "-3"), ("{name!c}", "12"), ("{nope}", None), ("{", None), ("{name!x}", None), ("{name:zz}", None), ("{}", None), ("{name.nope}", None), ("{name[0]}", None)]
VAL = {"name": 12, "b": -3}
# the same for dicts of texts
SVAL = {"first": "bar", "second": "Not printed"}
SFMT = [("foo {first}", "foo bar"), ("{second!u}", "NOT PRINTED"), ("{second!l}", "not printed"), ("{first!c}", "Bar"), ("{first!r}", "'bar'"), ("{first:>5}", "  bar")]


def fmt(ctx, steps):
    n = started(ctx, make(ctx, FormatString))
    put(ctx, n, "dict", VAL)
    for i in range(steps):
        s, want = ctx.pick("fmt%d" % i, FMT)
        put(ctx, n, "format_string", s)
        before = out(n, "formatted_string")
        r = tick(ctx, n)
        if want is None:
            ctx.check(r == F, "a text that can't be formatted fails")
            ctx.check(out(n, "formatted_string") == before, "a text that can't be formatted isn't output")
            ctx.reach("bad")
        else:
            ctx.check(r == SU, "formatting succeeds")
            ctx.check(out(n, "formatted_string") == want, "the output is the formatted text")
            ctx.reach("good")


def fmtlist(ctx, lens):
    n = started(ctx, make(ctx, FormatStringList))
    k = ctx.pick("len", lens)
    ps = [ctx.pick("fmt%d" % i, FMT) for i in range(k)]
    put(ctx, n, "dict", VAL)
    put(ctx, n, "format_strings", [p[0] for p in ps])
    r = tick(ctx, n)
    if any(p[1] is None for p in ps):
        ctx.check(r == F, "a text that can't be formatted fails")
        ctx.reach("bad")
    else:
        ctx.check(r == SU, "formatting succeeds")
        ctx.check(out(n, "formatted_strings") == [p[1] for p in ps], "the outputs are the formatted texts")
        ctx.reach("good")


def fmttext(ctx, cls):
    """The documented use: values that are texts."""
    n = started(ctx, make(ctx, cls))
    s, want = ctx.pick("fmt", SFMT)
    ctx.check(not rejected(lambda: n.node_config.inputs["dict"].set_value(SVAL)), "a dict of texts can be formatted")
    put(ctx, n, "format_strings" if cls is FormatStringList else "format_string", [s] if cls is FormatStringList else s)
    ctx.check(tick(ctx, n) == SU, "formatting succeeds")
    ctx.check(out(n, "formatted_strings" if cls is FormatStringList else "formatted_string") == ([want] if cls is FormatStringList else want), "the output is the formatted text")


# content, type: (value of a YamlList, value of a YamlDict); ANY: unspecified
ANY = "!any"
BAD = "!bad"
FILES = {
    "list": (b"[1, 2, 3]\n", int, [1, 2, 3], BAD), "block": (b"- 4\n- 5\n", int, [4, 5], BAD), "dict": (b"a: 1\nb: 2\n", int, BAD, {"a": 1, "b": 2}), "texts": (b"[x, 'y z']\n", str, ["x", "y z"], BAD),
    "dicttexts": (b"a: x\n", str, BAD, {"a": "x"}), "scalar": (b"5\n", int, BAD, BAD), "nothing": (b"", int, BAD, BAD), "broken": (b"[1, 2\n", int, BAD, BAD), "binary": (b"\xff\xfe\x00[1]", int, BAD, BAD),
    "latin": (b"- \xe4\n", str, BAD, BAD), "date": (b"- 2020-13-45\n", int, BAD, BAD), "text": (b"[1, 2, x]\n", int, BAD, BAD), "dicttext": (b"a: x\nb: 1\n", int, BAD, BAD), "day": (b"[2020-01-01]\n", str, BAD, BAD),
    "tag": (b"!!python/object/apply:os.getcwd []\n", int, BAD, BAD), "intkeys": (b"1: 2\n", int, BAD, {"1": 2}), "null": (b"[null]\n", int, BAD, BAD),
}


def spoil(p):
    """Names of files that can't be loaded."""
    return [p("nope"), p(""), "nope.yaml", "", "file://", "package://nope/x.yaml", "package://", "package:///x.yaml", "http://x/y.yaml", p("a\0b"), p("x" * 300), "package://a\0b/x"]


def yamlfile(ctx, cls, steps, names):
    """A good file is output as it is; a bad one is reported.  A file is loaded again after a reset or if the path changes."""
    at = 2 if cls is YamlList else 3
    d = tempfile.mkdtemp(prefix="vf-c27-")
    try:
        os.mkdir(d + "/share")
        stubs.world().packages["pkg"] = d + "/share"

        def p(n):
            return "file://" + d + "/" + n

        def store(path, content):
            with open(path, "wb") as f:
                f.write(content)
        t = ctx.pick("type", (int, str))
        n = started(ctx, make(ctx, cls, {"element_type": t}))
        for i in range(steps):
            name = ctx.pick("file%d" % i, names)
            if name in FILES:
                content, ft = FILES[name][:2]
                want = FILES[name][at]
                if want != BAD and ft is not t:
                    want = BAD
                via = ctx.pick("via%d" % i, (0, 1))
                store(d + ("/share/" if via else "/") + "f%d" % i, content)
                path = "package://pkg/f%d" % i if via else p("f%d" % i)
            else:
                path, want = spoil(p)[name], BAD
            if rejected(lambda: n.node_config.inputs["file_path"].set_value(path)):
                ctx.check(name not in FILES, "a well-formed path is accepted")
                ctx.reach("bad")
                return
            for again in range(2):
                r = tick(ctx, n)
                if want == BAD:
                    ctx.check(sym_or(r == F, r == ERR), "a file that can't be loaded is reported")
                    if r == F:
                        ctx.check(out(n, "load_success") is False, "a file that can't be loaded is no success")
                        ctx.check(bool(out(n, "load_error_msg")), "there is a message for a file that can't be loaded")
                    else:
                        return
                    ctx.reach("bad")
                else:
                    ctx.check(r == SU, "a good file is loaded")
                    ctx.check(out(n, "load_success") is True, "loading a good file is a success")
                    ctx.check(out(n, "load_error_msg") == "", "there is no message for a good file")
                    ctx.check(out(n, "content") == want, "the output is the content of the file")
                    if cls is YamlList:
                        ctx.check(out(n, "line_count") == len(want), "the number of items is right")
                    ctx.reach("good")
        if steps == 1 and want != BAD:
            # a changed file is loaded by a reset
            store(d + ("/share/" if via else "/") + "f0", FILES["scalar"][0])
            ok(ctx, n.reset(), "reset")
            ctx.check(tick(ctx, n) == F, "a reset loads the file again")
    finally:
        shutil.rmtree(d)


def param(ctx, steps):
    """The output is the parameter; without a value the default; without a parameter the node fails."""
    t = ctx.pick("type", (int, bool, float))
    n = started(ctx, make(ctx, RosParam, {"param_type": t}))

    def value(name, k=None):
        k = k or t
        return ctx.int(name, -(1 << 63), (1 << 63) - 1) if k is int else ctx.bool(name) if k is bool else ctx.real(name, -9, 9)
    dflt = value("default")
    put(ctx, n, "default_value", dflt)
    put(ctx, n, "param_name", "p")
    w = stubs.world()
    for i in range(steps):
        how = ctx.pick("how%d" % i, ("value", "none", "missing", "wrong"))
        w.params.clear()
        want = None
        if how == "value":
            want = w.params["p"] = value("v%d" % i)
        elif how == "none":
            w.params["p"] = None
            want = dflt
        elif how == "wrong":
            w.params["p"] = "text"
        before = out(n, "param")
        r = tick(ctx, n)
        if want is None:
            ctx.check(r == F if how == "missing" else sym_or(r == F, r == ERR), "a parameter that doesn't exist fails, one of another type isn't output")
            ctx.check(sym_deep_eq(out(n, "param"), before), "nothing is output without a parameter")
            ctx.reach(how)
            if r == ERR:
                return
        else:
            ctx.check(r == SU, "reading a parameter succeeds")
            ctx.check(out(n, "param") == want, "the output is the parameter")
            ctx.reach(how)


def noros(ctx):
    n = make(ctx, RosParam, {"param_type": int}, ros=False)
    ctx.check(n.setup().is_err(), "setup without a ROS node is an error")
    ctx.reach("done")


def enum(ctx):
    from diagnostic_msgs.msg import DiagnosticStatus
    cls, want = ctx.pick("type", ((Enum, {"A": 0, "B": 1, "C": 7}), (SEnum, {"X": "one", "Y": "two"}), (Two, {}), (DiagnosticStatus, None), (Ask.Request, {})))
    n = started(ctx, make(ctx, EnumFields, {"ros_message_type": cls}))
    ctx.check(tick(ctx, n) == SU, "the constants of a message can be output")
    if want is None:
        want = {k: getattr(cls, k) for k in ("OK", "WARN", "ERROR", "STALE")}
    ctx.check({k: out(n, k) for k in n.node_config.outputs} == want, "there is an output for each constant, with its value")
    ctx.reach("done")


def flat(ctx, name):
    return {"b": ctx.bool(name + "b"), "i": ctx.int(name + "i", -(1 << 31), (1 << 31) - 1), "f": ctx.real(name + "f", -9, 9), "s": ctx.str(name + "s", 4), "u": ctx.int(name + "u", 0, 255)}


def nest(ctx, name):
    return {"inner": Flat(**flat(ctx, name)), "label": ctx.pick(name + "l", ("", "x")), "nums": [ctx.int(name + "n", -(1 << 15), (1 << 15) - 1)], "items": [Flat(i=ctx.int(name + "it", -9, 9))] * ctx.pick(name + "k", (0, 2)),
            "names": ["ab"], "pair": [1, ctx.int(name + "p", 0, 255)]}


CLS = {"flat": (Flat, flat), "nested": (Nested, nest)}


def plain(v):
    return v.tolist() if hasattr(v, "tolist") else v


def equal(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, (Flat,)):
        return sym_and(*[equal(getattr(a, k), getattr(b, k)) for k in Flat.get_fields_and_field_types()])
    if isinstance(a, list):
        return len(a) == len(b) and sym_and(*[equal(x, y) for x, y in zip(a, b)])
    return sym_deep_eq(a, b)


def fields(ctx, kind, steps):
    """Taking a message apart and putting it together again."""
    cls, gen = CLS[kind]
    a = started(ctx, make(ctx, MessageToFields, {"input_type": cls}))
    b = started(ctx, make(ctx, FieldsToMessage, {"output_type": cls}, node_id=2))
    for k, c in b.node_config.inputs.items():
        if k != "output_type":
            m = c.serialize_type()
            m.is_static = False
    b = FieldsToMessage(node_id=U(3), name="b", ros_node=rclpy.node.Node("n"), new_inputs=dict({"output_type": RosTopicType(value=cls)}, **{k: dynamic(f) for k, f in cls.get_fields_and_field_types().items()}))
    started(ctx, b)
    for i in range(steps):
        v = gen(ctx, "m%d." % i)
        msg = cls(**v)
        put(ctx, a, "in", msg)
        ctx.check(tick(ctx, a) == SU, "a message can be taken apart")
        ctx.check(set(a.node_config.outputs) == set(v), "there is an output for each field")
        for k in v:
            ctx.check(equal(out(a, k), v[k]), "each output is its field")
            put(ctx, b, k, v[k])
        ctx.check(tick(ctx, b) == SU, "a message can be put together")
        w = out(b, "out")
        for k in v:
            ctx.check(equal(getattr(w, k), v[k]), "each field is its input")
        ctx.reach("done")


def dynamic(f):
    c = get_message_field_io_type(f).unwrap()
    c.is_static = False
    return c


def missing(ctx, kind):
    """A message is only put together from all fields."""
    cls, gen = CLS[kind]
    b = FieldsToMessage(node_id=U(3), name="b", ros_node=rclpy.node.Node("n"), new_inputs=dict({"output_type": RosTopicType(value=cls)}, **{k: dynamic(f) for k, f in cls.get_fields_and_field_types().items()}))
    started(ctx, b)
    v = gen(ctx, "m.")
    miss = ctx.pick("missing", sorted(v))
    had = b.node_config.inputs[miss].has_value()
    for k in v:
        if k != miss:
            put(ctx, b, k, v[k])
    r = tick(ctx, b)
    ctx.check(r == (SU if had else ERR), "a field without a value is an error")
    if r == ERR:
        ctx.check(out(b, "out") == UNSET, "an incomplete message isn't output")
    ctx.reach("done")


def harnesses(tier):
    t = tier == "thorough"
    hs = [H("format", fmt, dict(steps=2), "2 of %d format strings" % len(FMT), reach=("good", "bad")),
          H("formatlist", fmtlist, dict(lens=(0, 1, 2)), "up to 2 of %d format strings" % len(FMT), reach=("good", "bad")),
          H("format/text", fmttext, dict(cls=FormatString), "the documented example"),
          H("formatlist/text", fmttext, dict(cls=FormatStringList), "the documented example"),
          H("param", param, dict(steps=3 if t else 2), "%d ticks" % (3 if t else 2), reach=("value", "none", "missing", "wrong"), real_floats=True),
          H("noros", noros, {}, "", reach=("done",)),
          H("enum", enum, {}, "5 message types", reach=("done",)),
          H("fields/flat", fields, dict(kind="flat", steps=2), "2 messages with any values", reach=("done",), real_floats=True, max_paths=50000),
          H("fields/nested", fields, dict(kind="nested", steps=1), "any values", reach=("done",), real_floats=True, max_paths=50000),
          H("missing/flat", missing, dict(kind="flat"), "", reach=("done",), real_floats=True),
          H("missing/nested", missing, dict(kind="nested"), "", reach=("done",), real_floats=True)]
    for c in (YamlList, YamlDict):
        hs.append(H(c.__name__, yamlfile, dict(cls=c, steps=1, names=sorted(FILES)), "%d kinds of files" % len(FILES), reach=("good", "bad")))
        hs.append(H(c.__name__ + "/names", yamlfile, dict(cls=c, steps=1, names=list(range(12))), "12 kinds of bad file names", reach=("bad",)))
        hs.append(H(c.__name__ + "/twice", yamlfile, dict(cls=c, steps=3 if t else 2, names=["list", "dict", "texts", "dicttexts", "broken", 0]), "%d files one after another" % (3 if t else 2), reach=("good", "bad"), max_paths=50000))
    return hs
