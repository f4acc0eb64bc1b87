"""C04 — arguments are type-checked and converted only when needed."""
import functools
import json

import numpy as np

from . import env
from .env import Object, backend, gsp
from .protocol import resolve, same_content

ID = "C04"
RULE = ("calls of generated commands whose parameter is annotated with one type or a union (built-in, user "
        "and protocol types), arguments of every kind including subclasses and None, positional, keyword "
        "or default, with random converters registered; an oracle computed from the type relation and the "
        "registered pairs says accepted unchanged / converted / refused; plus documented protocol "
        "signatures; non-trivial = distinct (annotation, argument type, converters, outcome)")
MIN = 400
QUICK = 20


class TypA:
    def __init__(self, n=0):
        self.n = n


class TypB(TypA):
    pass


class TypC(TypB):
    pass


class TypD:
    def __init__(self, n=0):
        self.n = n


class TypE(TypD, TypA):
    pass


class MyInt(int):
    pass


class MyList(list):
    pass


class MyStr(str):
    pass


TYPES = [int, float, str, bytes, list, tuple, dict, TypA, TypB, TypC, TypD, TypE, np.ndarray, np.dtype,
         memoryview, gsp.core.Color, gsp.core.Marker, gsp.core.Matrix]


def values(m):
    n = m.integer(-9, 9)
    return m.pick([
        lambda: n, lambda: n + 0.5, lambda: "text%d" % n, lambda: b"bytes", lambda: [n, 1], lambda: (n, 2),
        lambda: {"n": n}, lambda: TypA(n), lambda: TypB(n), lambda: TypC(n), lambda: TypD(n),
        lambda: TypE(n), lambda: MyInt(n), lambda: MyList([n]), lambda: MyStr("s"), lambda: m.chance(),
        lambda: np.arange(4) + n, lambda: np.dtype("f4"), lambda: memoryview(b"abc"), lambda: None,
        lambda: np.float64(n), lambda: np.float32(n), lambda: np.int32(n),
        lambda: gsp.core.Color(0, 1, 0, 1), lambda: gsp.core.Marker.star,
        lambda: gsp.core.Matrix(np.eye(4))])()


def make_command(annotation, default):
    """A new command class whose method takes one parameter of the given type(s)."""
    from gsp.io.command import command

    class Probe(Object):
        def __init__(self):
            Object.__init__(self)

        if default:
            def check(self, first: int = 1, value=None, other: str = "o"):
                return value
        else:
            def check(self, first: int, value, other: str = "o"):
                return value
        check.__annotations__["value"] = annotation
        if default:
            check.__defaults__ = (1, default[0], "o")
        check = command()(check)

        def twin(self, value):
            return value
        twin.__annotations__["value"] = annotation
        twin = command("named")(twin)

    return Probe()


def union(types):
    return functools.reduce(lambda a, b: a | b, types)


def probe(m):
    converters = gsp.io.converters
    mine = []

    def forget():
        for src, dst in mine:
            gsp.io.unregister(src, dst)

    try:
        for _ in range(m.integer(0, 4)):
            src = m.pick(["TypA", "TypB", "TypC", "TypD", "TypE", "dict", "MyInt", "str", "float", "int",
                          "ndarray", "float32", "NoneType", "object" if m.chance(0.1) else "TypA",
                          "*" if m.chance(0.15) else "TypD"])
            dst = m.pick(TYPES).__name__
            if (src, dst) in converters:
                continue
            mine.append((src, dst))

            def converter(value, src=src, dst=dst):
                return ("converted", src, dst, value)
            gsp.io.register(src, dst)(converter)
        for _ in range(m.integer(3, 8)):
            types = [m.pick(TYPES) for _ in range(m.pick([1, 1, 2, 3]))]
            attempt(m, types, mine)
    finally:
        forget()


def attempt(m, types, mine):
    queue = gsp.io.queue("active")
    value = values(m)
    annotation = union(types) if len(types) > 1 else types[0]
    default = [value] if m.chance(0.25) else None
    target = make_command(annotation, default)
    before = list(queue)
    kind = m.integer(0, 2)
    if default:
        call = lambda: target.check(m.integer(0, 3))
    elif kind == 0:
        call = lambda: target.check(1, value)
    elif kind == 1:
        call = lambda: target.check(other="x", value=value, first=2)
    else:
        call = lambda: target.twin(value)
    # Oracle
    accepted = value is None or isinstance(value, tuple(types))
    possible = []
    for dst in types:       # for each documented type, the converter of the closest type
        names = [src.__name__ for src in type(value).__mro__]
        if ("*", dst.__name__) in gsp.io.converters:
            possible += [(n, dst.__name__) for n in names + ["*"]
                         if (n, dst.__name__) in gsp.io.converters]
        else:
            possible += [(n, dst.__name__) for n in names
                         if (n, dst.__name__) in gsp.io.converters][:1]
    outcome = "accepted" if accepted else "converted" if possible else "refused"
    what = (f"argument {value!r} ({type(value).__name__}) for {annotation} with converters "
            f"{[p for p in possible]}")
    m.event(outcome, what)
    m.seen(outcome, [t.__name__ for t in types], type(value).__name__, tuple(possible), kind,
           default is not None)
    if outcome == "refused":
        m.raises(ValueError, call, what)
        m.check(list(queue) == before, f"{what}: a refused call was recorded")
        return
    try:
        result = call()
    except ValueError as error:
        m.check(False, f"{what}: refused ({error})")
    m.check(result is value, f"{what}: the call received something else")
    have = list(queue)
    m.eq(len(have), len(before) + 1, f"{what}: commands recorded")
    recorded = have[-1].parameters["value"]
    if outcome == "accepted":
        m.check(recorded is value, f"{what}: recorded as {recorded!r}")
        return
    m.check(recorded is not value, f"{what}: recorded without conversion")
    own = [p for p in possible if p in mine]
    if own == possible:
        got = resolve(recorded)
        m.check(isinstance(got, tuple) and len(got) == 4 and got[0] == "converted" and
                (got[1], got[2]) in possible and got[3] is value,
                f"{what}: resolves to {got!r}")
        dump_agrees(m, have[-1], got, what)
    else:
        try:
            expected = [gsp.io.converters[p](value) for p in possible]
        except Exception:       # not a value this converter is meant for
            return
        got = resolve(recorded)
        m.check(any(type(got) is type(e) for e in expected), f"{what}: resolves to {got!r}")


def dump_agrees(m, command, got, what):
    """What a dump states for that parameter is the converted value."""
    queue = env.new_queue("dump")
    queue.push(command)
    try:
        json.dumps(got[3])
    except TypeError:
        return
    entry = json.loads(gsp.io.json.dump(queue))["commands"][-1]
    m.eq(entry["parameters"]["value"], json.loads(json.dumps(got)), f"{what}: dumped value")


def run_converts(m):
    """Running passes converted values, unconverted ones untouched."""
    import types
    from gsp.io.command import command
    module = types.ModuleType("user_backend")

    class Target(Object):
        @command()
        def __init__(self, value: int | str):
            Object.__init__(self)
            self.value = value
    module.Target = Target
    queue = gsp.io.queue("active")

    @gsp.io.register("TypA", "int")
    def from_a(value):
        return 1000 + value.n
    try:
        made = []
        for _ in range(m.integer(2, 8)):
            value = m.pick([3, "text", TypA(5), TypB(6), TypC(7)])
            target = Target(value)
            m.check(target.value is value, "the call itself received another value")
            made.append((target, 1000 + value.n if isinstance(value, TypA) else value))
            m.raises(ValueError, lambda: Target(m.pick([1.5, [1], TypD(1)])), "an argument of a wrong type")
        m.eq(len(queue), len(made), "commands recorded")
        queue.run(module)
        for target, expected in made:
            m.eq(Object.objects[target.id].value, expected, "value received when run")
            m.seen("run", type(target.value).__name__)
    finally:
        gsp.io.unregister("TypA", "int")


def documented(m):
    """Documented parameter types of the protocol classes."""
    C, V = gsp.core, gsp.visual
    queue = gsp.io.queue("active")
    canvas = C.Canvas(100, 100, 100.0)
    viewport = C.Viewport(canvas, 0, 0, 1.0, 1.0, [1, 1, 1, 1])
    good = np.zeros((3, 3), np.float32)
    white = [1.0, 1.0, 1.0, 1.0]
    points = V.Points(good, 1.0, white, white, 1.0)
    buffer = C.Buffer(3, np.dtype("f4"), b"\0" * 12)
    bad = m.pick([lambda: {1: 2}, lambda: {1, 2}, lambda: object(), lambda: 2j, lambda: TypD()])
    calls = [
        lambda: C.Canvas(bad(), 10, 10.0), lambda: C.Canvas(10, "10", 10.0), lambda: C.Canvas(10, 10, "x"),
        lambda: C.Canvas(10, height=bad(), dpi=10.0),
        lambda: C.Viewport(canvas, bad(), 0, 1.0, 1.0, white),
        lambda: C.Viewport(canvas, 0, "0", 1.0, 1.0, white),
        lambda: C.Viewport(canvas, 0, 0, 1.0, 1.0, bad()),
        lambda: C.Viewport(canvas, 0, 0, 1.0, color="red", height=1.0),
        lambda: C.Buffer("3", np.dtype("f4"), b""), lambda: C.Buffer(3, np.dtype("f4"), bad()),
        lambda: C.Buffer(3.5, np.dtype("f4"), b""), lambda: buffer.set_data("0", memoryview(b"")),
        lambda: buffer.set_data(0, bad()), lambda: buffer.set_data(0.5, memoryview(b"")),
        lambda: V.Pixels(m.pick(['abc', {1: 2}, {1, 2}]), white), lambda: V.Pixels(good, bad()),
        lambda: V.Points(good, bad(), white, white, 1.0), lambda: V.Points(good, 1.0, white, white, "1"),
        lambda: V.Points(good, "1", white, white, 1.0), lambda: V.Points(good, 1.0, white, bad(), 1.0),
        lambda: V.Paths(good, m.pick(['abc', {1: 2}, {1, 2}]), white, 1.0, C.LineStyle.solid, C.LineJoin.miter, C.LineCap.round),
        lambda: V.Segments(np.zeros((2, 2, 3)), bad(), white, 1.0),
        lambda: points.render(viewport, bad()), lambda: points.render(viewport, proj="identity"),
        lambda: gsp.transform.Colormap(3), lambda: gsp.transform.Colormap("magma", vmin="low"),
        lambda: gsp.transform.Out(3), lambda: gsp.transform.Operator(3, 1, 2),
        lambda: canvas.render(3), lambda: canvas.render(["a"]),
    ]
    for index, call in enumerate(calls):
        size = len(queue)
        m.raises(ValueError, call, f"documented signature {index}: an argument of a wrong type")
        m.eq(len(queue), size, f"documented signature {index}: a refused call was recorded")
        m.seen("documented", index)


def protocol_conversions(m):
    """Plain values accepted by the protocol are recorded unchanged or as the documented type."""
    C, V, B = gsp.core, gsp.visual, backend
    queue = gsp.io.queue("active")
    rgba = [m.real(0, 1) for _ in range(4)]
    n = m.integer(1, 6)
    P = m.rng.uniform(-1, 1, (n, 3)).astype(m.pick([np.float32, np.float64]))
    color = m.pick([C.Color(*rgba), list(rgba), tuple(rgba)])
    visual = V.Pixels(P, color)
    recorded = queue[len(queue) - 1].parameters
    m.check(isinstance(resolve(recorded["colors"]), C.Color), "a colour is recorded as a Color")
    m.eq(list(resolve(recorded["colors"])), rgba, "a colour keeps its components")
    positions = resolve(recorded["positions"])
    m.check(isinstance(positions, C.Buffer), "an array is recorded as a Buffer")
    m.check(same_content(positions, P), "an array converts to a buffer of its bytes")
    m.eq(len(positions), n, "an array converts to a buffer of its items")
    M = m.rng.uniform(-1, 1, (4, 4))
    visual.render(C.Viewport(C.Canvas(10, 10, 10.0), 0, 0, 1.0, 1.0, rgba), model=M, view=C.Matrix(M))
    recorded = queue[len(queue) - 1].parameters
    for name in ("model", "view"):
        matrix = resolve(recorded[name])
        m.check(isinstance(matrix, C.Matrix), f"{name} is recorded as a Matrix")
        m.close(np.asarray(matrix), M, f"{name} keeps its values", 1e-6)
    m.check(resolve(recorded["proj"]) is None, "an omitted matrix is recorded as None")
    # Several documented types: the value's own type wins over any conversion
    number = m.pick([m.integer(1, 5), [1] * n, [list(range(n))]])
    V.Paths(P, number, C.Color(*rgba), 1.5, C.LineStyle.solid, C.LineJoin.miter, C.LineCap.round)
    recorded = queue[len(queue) - 1].parameters
    indices = resolve(recorded["indices"])
    if isinstance(number, int):
        m.check(recorded["indices"] is number, "an int among documented types is recorded unchanged")
    else:
        m.check(isinstance(indices, (C.Buffer, C.List)), "a list converts to a documented type")
    m.check(recorded["line_widths"] == 1.5 and type(recorded["line_widths"]) is float,
            "a float is recorded unchanged")
    m.check(recorded["line_caps"] is C.LineCap.round, "a cap is recorded unchanged")
    m.seen("conversion", type(color).__name__, P.dtype.str, type(number).__name__, n)


FIXED = []
RANDOM = [(probe, 300, 4000), (run_converts, 20, 200), (documented, 6, 30), (protocol_conversions, 60, 800)]
