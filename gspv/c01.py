"""C01 — every protocol call is recorded exactly once, in order, with its arguments."""
import numpy as np

from . import env
from .env import Object, backend, gsp
from .protocol import Call, Scripter, check_command, split, REQUIRED

ID = "C01"
RULE = ("random sequences of protocol calls (creations, methods, renders; protocol classes and "
        "matplotlib backend; random positional/keyword/default split, random argument kinds), each call "
        "followed by comparing the active queue with a reference log; non-trivial = distinct "
        "(package, class, method, parameter kinds, keyword pattern)")
MIN = 400
QUICK = 20


def compare(m, queue, before, call, package):
    grown = len(queue) - before
    if call.simple:
        m.eq(grown, 1, f"{call}: number of commands appended")
    else:
        m.check(grown >= 1, f"{call}: nothing recorded")
    command = queue[len(queue) - 1]
    check_command(m, command, call)
    m.seen(package, call.classname, call.methodname,
           tuple((k, type(v).__name__) for k, v in call.given.items()))
    return command


def sequence(m, package):
    queue = gsp.io.queue("active")
    s = Scripter(m, package)
    last_id, last_time = None, None
    for _ in range(m.integer(5, 25)):
        # Material created for the arguments is recorded before: watch the call itself
        before = len(queue)
        known = {int(i) for i in Object.objects}
        call = s.step()
        m.event(package, call, "->", len(queue) - before, "command(s)")
        for i in range(before, len(queue)):
            command = queue[i]
            if last_id is not None:
                m.check(command.id > last_id, f"{call}: command ids do not increase")
                m.check(command.timestamp >= last_time, f"{call}: timestamps go backwards")
            last_id, last_time = command.id, command.timestamp
        # The call is the last command; what came before are buffers made as arguments
        material = [queue[i] for i in range(before, len(queue) - 1)]
        m.check(all(c.classname == "Buffer" and c.methodname == "core.Buffer" for c in material),
                f"{call}: extra commands recorded {[str(c) for c in material]}")
        created = [int(c.parameters["id"]) for c in material]
        new = {int(i) for i in Object.objects} - known
        if "." in call.methodname:
            new.discard(int(call.obj.id))
        m.eq(sorted(created), sorted(new), f"{call}: creations recorded and objects created")
        compare(m, queue, len(queue) - 1, call, package)


def protocol_sequence(m):
    sequence(m, "gsp")


def backend_sequence(m):
    sequence(m, "backend")


def arithmetic(m):
    """Composite calls: the call itself is the last command; every object is created once."""
    queue = gsp.io.queue("active")
    T = gsp.transform
    pool = [T.Pixel(), T.X(), T.Out("screen[positions].x"), T.Colormap("magma"), T.Inch()]
    for _ in range(m.integer(3, 8)):
        before = len(queue)
        known = set(Object.objects)
        a, b = m.pick(pool), m.pick(pool)
        kind = m.integer(0, 5)
        if kind == 0:
            result, expected = a + b, ("Add", "transform.Add", {"left": a, "right": b})
        elif kind == 1:
            result, expected = a - 2.5, ("Sub", "transform.Sub", {"left": a, "right": 2.5})
        elif kind == 2:
            result, expected = a / b, ("Div", "transform.Div", {"left": a, "right": b})
        elif kind == 3:
            result, expected = 3 - a, ("Sub", "transform.Sub", {"left": 3, "right": a})
        elif kind == 4 and not isinstance(a, T.Measure):
            result, expected = a * 2, ("Mul", "transform.Mul", {"left": a, "right": 2})
        else:
            if isinstance(a, T.Out):
                continue
            result, expected = a(b), None
        m.event("transform arithmetic", type(a).__name__, kind, type(b).__name__,
                len(queue) - before, "commands")
        commands = [queue[i] for i in range(before, len(queue))]
        created = [int(c.parameters["id"]) for c in commands if c.methodname.startswith("transform.")]
        new = [int(i) for i in Object.objects if i not in known]
        m.eq(sorted(created), sorted(new), "creations recorded and objects created")
        m.check(int(result.id) in created, "result has no creation command")
        if expected:
            check_command(m, commands[-1], Call(result, result, *expected))
        m.seen("arith", kind, type(a).__name__, type(b).__name__)
        pool.append(result)


def user_class(m):
    """Classes defined with the command decorator, with delegating constructors."""
    from gsp.io.command import command

    # Objects may be left out of the dictionary of objects; they are referred to all the same
    Object.record = m.chance()
    shared = Object()
    Object.record = True

    class Foo(Object):
        @command()
        def __init__(self, value: int, other: Object = None, name: str = "n"):
            Object.__init__(self)
            self.value, self.other, self.name = value, other, name

        @command("renamed")
        def update(self, value: int = 3, other: Object = None):
            self.value = value
            return value * 2

        @command()
        def free(self, value, other: Object = None, rest="r"):
            return rest

        @command()
        def both(self, first: int, second: int = 7, third: Object = None):
            local_a, local_b, local_c, local_d = 1, 2, 3, 4
            return (first, second, third)

        @command()
        def tied(self, value: int = 3, other: Object = shared):
            return value

    class Bar(Foo):
        def __init__(self, value):
            Foo.__init__(self, value)

    class Baz(Foo):
        @command()
        def __init__(self, value: int):
            Foo.__init__(self, value, __no_command__=True)

    names = [f"p{i}" for i in range(m.integer(7, 24))]
    scope = {"command": command}
    exec("@command()\ndef many(self, %s):\n    extra = 3\n    return p0" % ", ".join(
        name if i < 5 else f"{name}={i}" for i, name in enumerate(names)), scope)
    Foo.many = scope["many"]

    queue = gsp.io.queue("active")
    objects = []
    for _ in range(14):
        before = len(queue)
        kind = m.integer(0, 8) if objects else 0
        Object.record = m.chance(0.7)
        value = m.integer(-5, 5)
        other = m.pick(objects) if objects and m.chance() else None
        if kind in (0, 1):
            args, kwargs, given = split(m, [("value", REQUIRED), ("other", None), ("name", "n")],
                                        {"value": value} | ({"other": other} if other else {}))
            foo = Foo(*args, **kwargs)
            call = Call(foo, foo, "Foo", "__init__", given)
            objects.append(foo)
        elif kind == 2:
            bar = Bar(value)
            call = Call(bar, bar, "Bar", "__init__", {"value": value, "other": None, "name": "n"})
            objects.append(bar)
        elif kind == 3:
            baz = Baz(value)
            call = Call(baz, baz, "Baz", "__init__", {"value": value})
            objects.append(baz)
        elif kind == 4:
            target = m.pick(objects)
            args, kwargs, given = split(m, [("value", 3), ("other", None)],
                                        {"value": value} | ({"other": other} if other else {}))
            result = target.update(*args, **kwargs)
            m.eq(result, value * 2, "result of a recorded method")
            call = Call(result, target, type(target).__name__, "renamed", given)
        elif kind == 5:
            target = m.pick(objects)
            rest = m.pick(["text", 2.5, None])
            args, kwargs, given = split(m, [("value", REQUIRED), ("other", None), ("rest", "r")],
                                        {"value": value, "rest": rest} | ({"other": other} if other else {}))
            m.eq(target.free(*args, **kwargs), rest, "result of a recorded method")
            call = Call(None, target, type(target).__name__, "free", given)
        elif kind == 6:
            target = m.pick(objects)
            args, kwargs, given = split(m, [("value", 3), ("other", shared)],
                                        {"value": value} | ({"other": other} if other else {}))
            m.eq(target.tied(*args, **kwargs), value, "result of a recorded method")
            call = Call(None, target, type(target).__name__, "tied", given)
        elif kind == 7:
            target = m.pick(objects)
            full = m.chance()
            values = {name: m.pick([i * 10, "t", None, 0.5]) for i, name in enumerate(names) if i < 5 or m.chance(0.7) or full}
            args, kwargs, given = split(m, [(name, REQUIRED if i < 5 else i) for i, name in enumerate(names)], values)
            m.eq(target.many(*args, **kwargs), values["p0"], "result of a recorded method")
            call = Call(None, target, type(target).__name__, "many", given)
        else:
            target = m.pick(objects)
            args, kwargs, given = split(m, [("first", REQUIRED), ("second", 7), ("third", None)],
                                        {"first": value} | ({"third": other} if other else {}))
            result = target.both(*args, **kwargs)
            m.eq(result[:2], (value, 7), "result of a recorded method")
            m.check(result[2] is other, "argument passed to a recorded method")
            call = Call(result, target, type(target).__name__, "both", given)
        m.event("user class", call, len(queue) - before, Object.record)
        Object.record = True
        compare(m, queue, before, call, "user")


def immutability(m):
    """What was recorded earlier does not change when later calls are made."""
    queue = gsp.io.queue("active")
    s = Scripter(m, "gsp", convert=False)
    snapshots = []
    for _ in range(15):
        s.step()
        snapshots = snapshots + [(queue[i], str(queue[i]), dict(queue[i].parameters), queue[i].id,
                                  queue[i].timestamp) for i in range(len(snapshots), len(queue))]
    for i, (command, text, parameters, cid, stamp) in enumerate(snapshots):
        m.check(queue[i] is command, "a recorded command was replaced")
        m.check(list(command.parameters) == list(parameters) and
                all(command.parameters[k] is parameters[k] for k in parameters),
                "parameters of a recorded command changed")
        m.check(command.id == cid and command.timestamp == stamp and str(command) == text,
                "a recorded command changed")
    m.seen("immutable", len(snapshots))


FIXED = []
RANDOM = [(protocol_sequence, 60, 1500), (backend_sequence, 30, 500), (arithmetic, 30, 600),
          (user_class, 20, 400), (immutability, 6, 100)]
