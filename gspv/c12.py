"""C12 — text and ANSI dumps list every command and parameter."""
import os
import re
import tempfile
from datetime import datetime

import numpy as np

from . import dumps, env
from .env import Object, backend, gsp
from .protocol import resolve

import gsp.io.ansi
import gsp.io.text

ID = "C12"
RULE = ("queues filled by random protocol, backend and user calls, recorded or loaded, active or not; the "
        "text and ANSI dumps are parsed and compared command by command with the queue, and with each "
        "other; non-trivial = distinct sets of methods dumped")
MIN = 400
QUICK = 20


def expected(command):
    """Lines that must be listed for a command: (name, value or None if any integer)."""
    yield "METHOD", f'"{dumps.method_of(command)}"'
    yield "COMMAND_ID", str(int(command.id))
    yield "TIMESTAMP", datetime.fromtimestamp(command.timestamp).strftime("%Y-%m-%dT%H:%M:%S.%f")
    for key, value in command.parameters.items():
        if key == "id":
            yield "OBJECT_ID", str(int(value))
            continue
        name = key[:-4] + "_ID" if key.endswith("(id)") else key
        if callable(value):
            value = resolve(value)
            if isinstance(value, Object):
                yield name.upper(), None
                continue
        yield name.upper(), str(value)


def check_listing(m, text, commands, what):
    """Every command once, in order, with everything expected."""
    position = 0
    blocks = [b.start() for b in re.finditer(r"(?m)^\d+\. COMMAND$", text)]
    m.eq(len(blocks), len(commands), f"{what}: commands listed")
    for number, (command, start) in enumerate(zip(commands, blocks)):
        end = blocks[number + 1] if number + 1 < len(blocks) else len(text)
        block = text[start:end]
        label = f"{what}: {dumps.method_of(command)}"
        m.check(block.startswith(f"{int(command.id)}. "), f"{label}: number")
        cursor = 0
        count = 0
        for name, value in expected(command):
            head = f"     - {name}: "
            found = block.find("\n" + head, cursor)
            m.check(found >= 0, f"{label}: {name} is not listed")
            rest = block[found + 1 + len(head):]
            if name == "METHOD" and "/" not in value:
                rest = rest.replace('/__init__"', '"', 1)
            if value is None:
                m.check(re.match(r"\d+ \(", rest) or re.match(r"\d+\s", rest),
                        f"{label}: {name} listed as {rest[:40]!r}, expected an id")
            elif " object at 0x" in value:
                m.check(rest.startswith(value.split(" at 0x")[0]), f"{label}: {name} listed as {rest[:60]!r}")
            else:
                m.check(rest.startswith(value) and rest[len(value):len(value) + 2] in (" (", "\n"),
                        f"{label}: {name} listed as {rest[:60]!r}, value {value[:60]!r}")
            cursor = found + 1
            count += 1
        m.eq(len(re.findall(r"(?m)^     - [A-Z0-9_() ]+: ", block)), count, f"{label}: lines listed")


def strip(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


def mask(text, commands):
    """The dump without the ids of objects that conversions create."""
    names = {name for c in commands for name, value in expected(c) if value is None}
    for name in names:
        text = re.sub(rf"(?m)^(     - {name}: )\d+", r"\1#", text)
    return re.sub(r" at 0x[0-9a-f]+", "", text)


def check_dumps(m, queue, what):
    commands = list(queue)
    text = gsp.io.text.dump(queue)
    ansi = gsp.io.ansi.dump(queue)
    m.check("\x1b" not in text, f"{what}: escape sequences in the text dump")
    check_listing(m, text, commands, what + " as text")
    check_listing(m, strip(ansi), commands, what + " as ANSI")
    m.check(mask(strip(ansi), commands) == mask(text, commands), f"{what}: text and ANSI dumps differ")
    if commands:
        m.check(ansi != strip(ansi), f"{what}: no escape sequence in the ANSI dump")
    with tempfile.TemporaryDirectory() as folder:
        for module, want in ((gsp.io.text, text), (gsp.io.ansi, ansi)):
            path = os.path.join(folder, "dump.txt")
            if m.chance():
                module.dump(queue, path)
            else:
                module.save(queue, path)
            with open(path, encoding="utf-8") as stream:
                got = stream.read()
            m.check(mask(strip(got), commands) == mask(strip(want), commands),
                    f"{what}: file and text of {module.__name__} differ")
            m.eq("\x1b" in got, "\x1b" in want, f"{what}: escape sequences in the file")
    m.event(what, len(commands), "commands", len(text), "characters")
    m.seen(tuple(sorted({dumps.method_of(c) for c in commands})), what)


NAMES = ["grid", "pid", "ids", "id_", "valid", "identifier", "x", "Size", "line_width", "_method", "parameters",
         "annotations", "value", "key", "name", "command", "timestamp_", "object", "o"]


def odd_class(m):
    """A command class whose parameters have any name."""
    from gsp.io.command import command
    names = list(dict.fromkeys(m.pick(NAMES) for _ in range(m.integer(1, 4))))
    scope = {"Object": Object, "command": command}
    exec("class Odd(Object):\n @command()\n def __init__(self, %s): Object.__init__(self)\n"
         " @command()\n def change(self, %s): pass\n" % (", ".join(names), ", ".join(n + "=None" for n in names)), scope)
    return scope["Odd"], names


def listed(m):
    queues = [gsp.io.queue("active")]
    Plain = dumps.user_class()
    for _ in range(m.integer(1, 3)):
        if m.chance(0.9):
            scripter = dumps.fill(m, m.integer(1, 12), plains=False)
            for _ in range(m.integer(0, 4)):
                thing = Plain(m.pick([1, -2.5, "text", "é", None, True, [1, "a"], (1, 2), b"\x00\xff",
                                      gsp.core.Marker.star, np.dtype("f4")]))
                thing.update(m.pick(["a b", "(x)"]), other=m.pick([None, thing]))
            if m.chance():
                Odd, names = odd_class(m)
                odd = Odd(*[m.pick([3, "t", None, 0.5]) for _ in names])
                odd.change(**{n: m.pick([4, "u", odd]) for n in names if m.chance()})
        if m.chance(0.06):
            for _ in range(m.pick([90, 260, 520, 1100])):
                gsp.transform.Pixel()
        if m.chance():
            queues.append(env.new_queue())
    for queue in queues:
        before = dumps.snapshot(queues)
        gsp.io.text.dump(queue)
        gsp.io.ansi.dump(queue)
        m.check(dumps.snapshot(queues) == before, "dumping changed a queue")
        check_dumps(m, queue, "active" if queue is queues[-1] else "other")


def loaded(m):
    dumps.fill(m, m.integer(1, 12))
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "a.json")
        gsp.save(path)
        queue = env.new_queue("loaded")
        gsp.io.json.load(path, queue)
    if m.chance():
        env.new_queue()
    check_dumps(m, queue, "loaded")


def default_queue(m):
    """Without an argument the active queue is listed."""
    dumps.fill(m, 4, plains=False)
    env.new_queue()
    m.eq(gsp.io.text.dump(), "", "text of an empty active queue")
    m.eq(gsp.io.ansi.dump(), "", "ANSI text of an empty active queue")
    dumps.fill(m, 3, plains=False)
    queue = gsp.io.queue("active")
    commands = list(queue)
    check_listing(m, gsp.io.text.dump(), commands, "default")
    check_listing(m, strip(gsp.io.ansi.dump()), commands, "default")
    m.seen("default")


RANDOM = [(listed, 60, 1000), (loaded, 40, 500), (default_queue, 6, 60)]
