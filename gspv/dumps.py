"""Independent reading of JSON dumps, and generation of queues to dump."""
import base64
import enum

import numpy as np

from . import env
from .env import Object, backend, gsp
from .protocol import Scripter, resolve


def method_of(command):
    """Documented name of a command in a dump."""
    if "." in command.methodname:
        return command.methodname
    if command.methodname == "__init__" and "." in command.classname:
        return command.classname                    # creation in a loaded queue
    return f"{command.classname}/{command.methodname}"


def canonical(method):
    """A creation may be written core.X or core.X/__init__."""
    return method[:-len("/__init__")] if method.endswith("/__init__") and "." in method else method


def read_dtype(text):
    return gsp.io.convert(text, "dtype") if ":" in text else np.dtype(text)


class Reader:
    """Interprets the entries of a dump: which objects exist, and the content of buffers."""

    def __init__(self, m, what):
        self.m, self.what = m, what
        self.objects = {}

    def feed(self, entry):
        m, p = self.m, entry["parameters"]
        method = canonical(entry["method"])
        for key, value in p.items():
            if key.endswith("(id)"):
                m.check(value in self.objects,
                        f"{self.what}: {method} refers to object {value} before its creation")
        if "/" not in method or method.endswith("/__init__"):
            m.check(p["id"] not in self.objects, f"{self.what}: object {p['id']} created twice")
            self.objects[p["id"]] = {"method": method} | p
            if method == "core.Buffer":
                raw = base64.b64decode(p["data"]) if p["data"] is not None else None
                self.objects[p["id"]]["bytes"] = bytearray(raw) if raw is not None else None
        else:
            m.check(p["id"] in self.objects,
                    f"{self.what}: {method} of object {p['id']} before its creation")
            if method == "Buffer/set_data":
                raw = base64.b64decode(p["data"])
                content = self.objects[p["id"]]["bytes"]
                if content is not None:
                    content[p["offset"]:p["offset"] + len(raw)] = raw

    def same_buffer(self, oid, obj, what):
        """Does the created object `oid` state the content of `obj`?"""
        m, made = self.m, self.objects[oid]
        if isinstance(obj, gsp.core.List):
            m.eq(made["method"], "core.List", f"{what}: object created by the conversion")
            items = [np.asarray(obj[i]) for i in range(len(obj))]
            self.same_array(made["data(id)"], np.concatenate(items), what)
            self.same_array(made["itemsizes(id)"], np.array([len(i) for i in items]), what)
            return
        m.eq(made["method"], "core.Buffer", f"{what}: object created by the conversion")
        m.eq(made["count"], len(obj), f"{what}: count")
        m.check(bytes(made["bytes"]) == np.ascontiguousarray(np.asarray(obj)).tobytes(), f"{what}: bytes")
        m.eq(read_dtype(made["dtype"]), np.asarray(obj).dtype, f"{what}: data type")

    def same_array(self, oid, array, what):
        made = self.objects[oid]
        got = np.frombuffer(bytes(made["bytes"]), read_dtype(made["dtype"]))
        self.m.check(np.array_equal(got.ravel(), array.ravel()), f"{what}: content of a list")


def same_json(m, got, value, what):
    """Is `got` (decoded JSON) what the plain value must be written as?"""
    if isinstance(value, enum.Enum):
        value = value.value
    if value is None or isinstance(value, (bool, int, float, str)):
        ok = type(got) is type(value) and (got == value or (value != value and got != got))
        if isinstance(value, int) and not isinstance(value, bool):
            ok = type(got) is int and got == int(value)
        elif isinstance(value, float):
            ok = isinstance(got, float) and (got == float(value) or (value != value and got != got))
        elif isinstance(value, str):
            ok = got == str(value)
        m.check(ok, f"{what}: written as {got!r}, value {value!r}")
    elif isinstance(value, (bytes, memoryview)):
        m.check(isinstance(got, str) and base64.b64decode(got) == bytes(value),
                f"{what}: binary data written as {str(got)[:60]!r}")
    elif isinstance(value, gsp.core.Matrix):
        want = [float(x) for x in np.asarray(value, dtype=np.float32).ravel()]
        m.check(isinstance(got, list) and len(got) == 16 and
                np.array_equal(np.float32(got), np.float32(want), equal_nan=True),
                f"{what}: matrix written as {got!r}")
    elif isinstance(value, np.dtype):
        m.check(isinstance(got, str), f"{what}: data type written as {got!r}")
        back = read_dtype(got)
        ok = back == value or (value.names is None and back.base == value.base and
                               back.itemsize == value.itemsize)
        m.check(ok, f"{what}: data type {value} written as {got!r}")
    elif isinstance(value, np.ndarray):
        m.check(isinstance(got, str) and base64.b64decode(got) == value.tobytes(), f"{what}: array")
    elif isinstance(value, (list, tuple)):
        m.check(isinstance(got, list) and len(got) == len(value), f"{what}: written as {got!r}, value {value!r}")
        for g, v in zip(got, value):
            same_json(m, g, v, what)
    elif isinstance(value, dict):
        m.check(isinstance(got, dict) and list(got) == [str(k) for k in value], f"{what}: {got!r}")
        for k in value:
            same_json(m, got[str(k)], value[k], what)
    else:
        m.check(False, f"{what}: no expectation for {value!r}")


def check_dump(m, payload, commands, what, ids=True):
    """The decoded dump states exactly these commands."""
    m.eq(sorted(payload), ["commands", "gsp_version"], f"{what}: top level")
    entries = list(payload["commands"])
    mine = {int(c.id) for c in commands}
    created = {int(c.parameters["id"]) for c in commands}
    reader = Reader(m, what)
    position = 0
    extra = 0
    for command in commands:
        label = f"{what}: {method_of(command)} #{int(command.id)}"
        # Objects that come from conversions, created just before they are used
        while position < len(entries) and entries[position]["id"] not in mine:
            entry = entries[position]
            m.check(entry["parameters"]["id"] not in created,
                    f"{label}: preceded by a command that was not recorded ({entry['method']})")
            m.check(canonical(entry["method"]) in ("core.Buffer", "core.List", "Buffer/set_data"),
                    f"{label}: preceded by {entry['method']}")
            reader.feed(entry)
            position += 1
            extra += 1
        m.check(position < len(entries), f"{label}: missing")
        entry = entries[position]
        position += 1
        m.eq(sorted(entry), ["id", "method", "parameters", "timestamp"], f"{label}: fields")
        m.eq(entry["id"], int(command.id), f"{label}: command id")
        m.eq(canonical(entry["method"]), method_of(command), f"{label}: method")
        m.eq(entry["timestamp"], command.timestamp, f"{label}: timestamp")
        reader.feed(entry)
        got = dict(entry["parameters"])
        names = {}
        for key, value in command.parameters.items():
            value = resolve(value)
            if isinstance(value, Object):
                m.check(key + "(id)" in got, f"{label}: no reference {key}(id) in {sorted(got)}")
                reader.same_buffer(got[key + "(id)"], value, f"{label}: {key}")
                names[key + "(id)"] = True
            else:
                m.check(key in got, f"{label}: parameter {key} missing in {sorted(got)}")
                same_json(m, got[key], value, f"{label}: {key}")
                names[key] = True
        m.eq(sorted(got), sorted(names), f"{label}: parameters")
    m.eq(len(entries), position, f"{what}: number of entries")
    return extra


def normalised(payload, commands):
    """The dump with ids of objects and commands that come from conversions numbered in order."""
    mine = {int(c.id) for c in commands}
    created = {int(c.parameters["id"]) for c in commands}
    numbers, out = {}, []

    def number(i):
        return i if i in created else ("new", numbers.setdefault(i, len(numbers)))
    for entry in payload["commands"]:
        p = {k: number(v) if k == "id" or k.endswith("(id)") else v for k, v in entry["parameters"].items()}
        own = entry["id"] in mine
        out.append((entry["method"], entry["id"] if own else None,
                    entry["timestamp"] if own else None, p))
    return out


def user_class():
    """A command class taking plain values of many kinds."""
    from gsp.io.command import command

    class Plain(Object):
        @command()
        def __init__(self, value, other: Object = None):
            Object.__init__(self)

        @command()
        def update(self, text: str = "t", number: float = 0.5, data: bytes = b"", flag: bool = True,
                   matrix=None, other: Object = None):
            pass
    return Plain


def plain(m, depth=0):
    kinds = [
        lambda: m.integer(-2 ** 40, 2 ** 40), lambda: m.real(-1e6, 1e6), lambda: 0, lambda: -0.0,
        lambda: m.real(-1, 1) * 1e-300, lambda: float("inf"), lambda: None, lambda: m.chance(),
        lambda: m.pick(["", "text", 'quo"te', "back\\slash", "é ∀ 🎨", "line\nbreak", "/", "1", "(id)",
                        "null", "x" * 500]),
        lambda: m.rng.bytes(m.integer(0, 70)), lambda: memoryview(m.rng.bytes(m.integer(0, 9))),
        lambda: gsp.core.Color(*[m.real(0, 1) for _ in range(4)]),
        lambda: gsp.core.Matrix(m.rng.uniform(-1, 1, (4, 4))),
        lambda: m.pick(list(gsp.core.Marker)), lambda: m.pick(list(gsp.core.LineCap)),
        lambda: np.dtype(m.pick(["f4", ">i2", "u1", "f8"])),
        lambda: np.dtype([("x", "f4"), ("c", "u1", 4)]),
    ]
    if depth < 2:
        kinds += [lambda: [plain(m, depth + 1) for _ in range(m.integer(0, 4))],
                  lambda: tuple(plain(m, depth + 1) for _ in range(m.integer(0, 3)))]
    return m.pick(kinds)()


def fill(m, steps, package=None, plains=True):
    """Record some calls in the active queue."""
    package = package or m.pick(["gsp", "gsp", "backend"])
    if m.chance(0.3):
        env.advance(m)
    scripter = Scripter(m, package)
    Plain = user_class()
    objects = []
    for _ in range(steps):
        if plains and m.chance(0.35):
            other = m.pick(objects) if objects and m.chance() else None
            if not objects or m.chance(0.5):
                objects.append(Plain(plain(m), other))
            else:
                m.pick(objects).update(m.pick(["a", "é"]), number=m.real(0, 1), data=m.rng.bytes(5),
                                       matrix=plain(m), other=other)
        else:
            scripter.step()
    if m.chance(0.15):
        # The clock was set back, or is coarse
        for command in gsp.io.queue("active"):
            command.timestamp = m.pick([command.timestamp, command.timestamp + m.real(-9, 9), 1.7e9, 86400.25])
    return scripter


def snapshot(queues):
    """Identity of everything in the queues, and content of what could be changed."""
    image = []
    for queue in queues:
        image.append((id(queue), bool(queue.readonly), [
            (id(c), int(c.id), c.timestamp, c.classname, c.methodname,
             [(k, id(v), content(v)) for k, v in c.parameters.items()]) for c in queue]))
    return image


def content(value):
    if isinstance(value, np.ndarray):
        return value.tobytes()
    if isinstance(value, (bytes, memoryview)):
        return bytes(value)
    if isinstance(value, gsp.core.Matrix):
        return np.asarray(value).tobytes()
    if isinstance(value, list):
        return [content(v) for v in value]
    if isinstance(value, (int, float, str, type(None))):
        return repr(value)
    if callable(value) and hasattr(value, "value"):
        return content(value.value)
    return None
