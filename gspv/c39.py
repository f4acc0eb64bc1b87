"""C39 — printing queues, commands and transforms states what they are."""
import contextlib
import io
import os
import re
import sys
import tempfile

import numpy as np

from . import dumps, env, state
from .env import Object, backend, gsp
from .trans import T, values

ID = "C39"
RULE = ("queues filled by random protocol, backend and user calls, recorded or loaded, active or not, read-only or not, "
        "printed as a whole and command by command, and random chains, bindings and expressions of transforms: the "
        "printed text is parsed and compared with the object, whose state is compared before and after; non-trivial = "
        "distinct (methods, status) and (transforms printed) combinations")
MIN = 2000
QUICK = 20


def output(func):
    stream = io.StringIO()
    with contextlib.redirect_stdout(stream):
        func()
    return stream.getvalue()


def creation(command):
    return not command.methodname or "." in command.methodname


def check_line(m, text, command, label):
    number, oid = int(command.id), int(command.parameters["id"])
    want = f"Command #{number}: {command.classname}(id={oid})"
    if not creation(command):
        want += f"/{command.methodname}("
        m.check(text.startswith(want) and text.endswith(")"), f"{label}: {text!r}, expected {want!r}…")
    else:
        m.eq(text, want, label)


def check_parameters(m, text, command, label):
    lines = text.rstrip("\n").split("\n")
    number, oid = int(command.id), int(command.parameters["id"])
    head = lines[0]
    m.check(re.match(rf"#0*{number}: ", head) and f"{command.classname}(id={oid})" in head
            and ("Creation" in head) == creation(command)
            and (creation(command) or head.split("(id=")[1].split(")", 1)[1].find(command.methodname + "(") >= 0),
            f"{label}: {head!r}")
    m.eq(len(lines) - 1, len(command.parameters), f"{label}: lines for parameters")
    for line, (key, value) in zip(lines[1:], command.parameters.items()):
        what = line.strip().lstrip("|").strip()
        if callable(value):
            m.check(what.startswith(f"{key}: {type(value.value).__name__} ("), f"{label}: {line!r} for a value to convert")
        else:
            m.eq(what, f"{key}: {type(value).__name__}", f"{label}: parameter")


class Length:
    def __init__(self, metres):
        self.metres = metres


def measured():
    """Calls whose arguments are converted from a class of the user's."""
    from gsp.io.command import command

    class Rod(Object):
        @command()
        def __init__(self, length: float, colour: gsp.core.Color = None):
            Object.__init__(self)
    gsp.io.unregister("Length", "float")
    gsp.io.register("Length", "float")(lambda length: float(length.metres))
    try:
        Rod(Length(2))
        Rod(Length(3), gsp.core.Color(1.0, 0.0, 0.0, 1.0))
    finally:
        gsp.io.unregister("Length", "float")


def queues(m):
    env.advance(m)
    all_queues = [gsp.io.queue("active")]
    if m.chance(0.3):
        measured()
    for _ in range(m.integer(0, 2)):
        dumps.fill(m, m.integer(1, 10))
        if m.chance(0.8):
            all_queues.append(env.new_queue())
    dumps.fill(m, m.integer(0, 10) if m.chance(0.93) else m.integer(90, 130))
    names = [q.name for q in all_queues]
    loaded = m.chance(0.3)
    if loaded:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "queue.json")
            gsp.io.json.save(path, all_queues[-1])
            gsp.io.json.load(path, all_queues[0])
    for queue in all_queues:
        queue.readonly = m.chance(0.3)
    active = gsp.io.queue("active")
    before = dumps.snapshot(all_queues)
    registry = dict(Object.objects)
    for queue, name in zip(all_queues, names):
        commands = list(queue)
        text = str(queue)
        label = f"queue of {len(commands)}{' after loading' if loaded else ''}"
        head, *lines = text.rstrip("\n").split("\n")
        m.check(head.startswith(f'CommandQueue("{name}", '), f"{label}: name in {head!r}")
        inside = head[len(f'CommandQueue("{name}", '):].split(")")[0]
        m.eq(inside, f"{'active' if queue is active else 'not active'}, {'read-only' if queue.readonly else 'read-write'}",
             f"{label}: status")
        m.check(re.search(rf": {len(commands)} command", head), f"{label}: number of commands in {head!r}")
        m.eq(len(lines), len(commands), f"{label}: lines")
        for line, command in zip(lines, commands):
            m.check(line.startswith("  - "), f"{label}: {line!r}")
            check_line(m, line[4:], command, f"{label}: command")
            m.eq(str(command), line[4:], f"{label}: command printed alone")
        for k in m.rng.permutation(len(commands))[:4]:
            command = commands[int(k)]
            check_parameters(m, output(command.dump), command, f"{label}: dump of {dumps.method_of(command)}")
            m.seen("command", dumps.method_of(command))
        m.seen(tuple(sorted({dumps.method_of(c) for c in commands})), queue is active, queue.readonly, loaded)
        m.event(label, head)
    m.check(dumps.snapshot(all_queues) == before, "printing changed a queue or a value")
    m.check(gsp.io.queue("active") is active, "printing changed the active queue")
    m.check(Object.objects.keys() == registry.keys(), "printing changed the registry")


def commands(m):
    """A command needs an id, and refers to objects by their ids."""
    env.advance(m)
    canvas = gsp.core.Canvas(10, 20, 50.0)
    name = m.pick(["Canvas", "Anything", "a"])
    method = m.pick([None, "", "core.Canvas", ".Canvas", "render", "set_size"])
    m.raises(ValueError, lambda: gsp.io.Command(name, method, {}), "command without id")
    m.raises(ValueError, lambda: gsp.io.Command(name, method, {"width": 3, "ids": 4}), "command without id")
    first = gsp.io.Command(name, method, {"id": 5, "other": canvas, "width": 3})
    second = gsp.io.Command(name, method, {"id": canvas})
    m.eq(first.parameters, {"id": 5, "other": canvas.id, "width": 3}, "parameters of a command")
    m.eq(second.parameters, {"id": canvas.id}, "object given as id")
    m.check(first.id < second.id, "numbers of commands")
    m.check(0 <= second.timestamp - first.timestamp < 5, "time of commands")
    m.eq((first.classname, first.methodname), (name, method), "names of a command")
    for command in (first, second):
        check_line(m, str(command), command, "a command made by hand")
        check_parameters(m, output(command.dump), command, "a command made by hand")
    queue = gsp.io.queue("active")
    size = len(queue)
    queue.readonly = m.chance()
    m.eq(queue.push(first), not queue.readonly, "push tells whether it recorded")
    m.eq(len(queue), size + (not queue.readonly), "pushed command")
    m.seen("made", name, method, queue.readonly)


def transform(m, depth=0):
    """A random transform and a function checking its text from a position on; returns what is left."""
    array = values(m, (m.integer(1, 3), 3))
    kind = m.pick(["X", "Y", "Pixel", "Inch", "Colormap", "Out", "Accessor"])
    t = {"Colormap": lambda: T.Colormap("gray"), "Out": lambda: T.Out("sizes"),
         "Accessor": lambda: T.Accessor(key="mass")}.get(kind, getattr(T, kind))()
    form = m.pick(["plain", "array", "buffer", "number", "chain", "chained chain"])
    if kind == "Out":
        form = "plain"
    if form == "array":
        t = t(array)
    elif form == "buffer":
        t = t(backend.core.Buffer(len(array), np.dtype((array.dtype, 3)), array.tobytes()))
    elif form == "number":
        t = t(m.pick([2, 0.5, 0, 0.0]))
    elif form == "chain":
        t = t(T.Y())
    elif form == "chained chain":
        t = t(T.Y()(T.X()(array)))
    return t, (kind, form)


def match(m, text, t, label):
    """What the text says of a transform."""
    if isinstance(t, T.Operator):
        left = "Operand"
        parts = (t.left, t.right)
        head = f"{type(t).__name__} (id={int(t.id)}"
        m.check(text.startswith(head), f"{label}: {text!r} starts with {head!r}")
        rest = text[len(head):]
        if t.base is not t:
            m.check(rest.startswith(f"[base={int(t.base.id)}]"), f"{label}: base in {text!r}")
        for side, part in zip(("left", "right"), parts):
            at = rest.find(f"{side}={part!r}")
            m.check(at >= 0, f"{label}: {side} operand {part!r} in {text!r}")
            if isinstance(part, T.Transform):
                match(m, repr(part), part, f"{label} {side}")
        return
    want = f"{type(t).__name__} (id={int(t.id)}"
    if t.base is not t:
        want += f"[base={int(t.base.id)}]"
    want += ")"
    if t.next is not None:
        want += f"({int(t.next.id)})"
    elif isinstance(t.buffer, Object):
        want += f"({int(t.buffer.id)})"
    elif t.buffer is not None:
        want += f"({t.buffer!r})"
    m.eq(text, want, label)


def transforms(m):
    env.advance(m)
    pool = [transform(m) for _ in range(m.integer(1, 4))]
    for _ in range(m.integer(0, 3)):
        (a, ka), (b, kb) = m.pick(pool), m.pick(pool)
        sign = m.pick("+-/+-/2=")
        e = {"+": lambda: a + b, "-": lambda: a - m.pick([1, 0.5]), "/": lambda: 2.0 / b,
             "2": lambda: T.Mul(m.pick([2, 0.5]), m.pick([2, 0.5])), "=": lambda: T.Add()}[sign]()
        if sign == "=":
            # the very same operand twice
            e.set_left(a)
            e.set_right(a)
        if m.chance(0.2):
            e = e.copy()
        pool.append((e, sign))
    queue = gsp.io.queue("active")
    size, registry = len(queue), dict(Object.objects)
    described = [state.describe(t) for t, _ in pool]
    for t, kind in pool:
        match(m, repr(t), t, f"text of {kind}")
        m.check(str(t) == repr(t), f"str of {kind}")
    m.eq(len(queue), size, "commands recorded by printing")
    m.check(Object.objects.keys() == registry.keys(), "objects created by printing")
    for (t, kind), old in zip(pool, described):
        m.check(state.same(state.describe(t), old), f"printing changed {kind}")
    m.seen("transforms", tuple(sorted(str(k) for _, k in pool)))


def streams(m):
    """A single command written to the standard output."""
    import gsp.io.ansi
    import gsp.io.text
    dumps.fill(m, m.integer(1, 5))
    queue = gsp.io.queue("active")
    for k in m.rng.permutation(len(queue))[:3]:
        command = queue[int(k)]
        label = f"{dumps.method_of(command)} printed"
        for module in (gsp.io.text, gsp.io.ansi):
            with env.quiet():
                printed = output(lambda: module.dump_command(command, stream=sys.stdout))
                text = module.dump_command(command, stream=None)
            mask = lambda s: re.sub(r"\d+| at 0x[0-9a-f]+", "#", s)
            m.eq(mask(printed.rstrip("\n")), mask(text.rstrip("\n")), f"{label} by {module.__name__}")
            name = dumps.method_of(command).removesuffix("/__init__")
            m.check(re.search(rf'METHOD: "{re.escape(name)}(/__init__)?"', text), f"{label}: method")
        m.seen("stream", dumps.method_of(command))


RANDOM = [(queues, 50, 1000), (commands, 15, 100), (transforms, 60, 1500), (streams, 30, 500)]
