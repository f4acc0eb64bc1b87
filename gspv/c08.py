"""C08 — saving and loading a queue loses nothing."""
import json
import os
import tempfile

import numpy as np

from . import dumps, env
from .env import Object, backend, gsp

ID = "C08"
RULE = ("queues filled by random protocol, backend and user calls, saved (active or not) and loaded into "
        "new, filled, active and inactive queues; every loaded command is compared with the stored one and "
        "re-dumped; all other queues compared before and after; one-call save/load with every file name and "
        "format form; non-trivial = distinct (methods saved, target kind, call form)")
MIN = 400
QUICK = 20


def split_method(method):
    if "/" in method:
        return tuple(method.split("/"))
    return method, "__init__"


def normal(classname, methodname):
    """A creation is the same whichever way it is held."""
    if methodname is None or methodname == "" or methodname == "__init__":
        return classname, "__init__"
    if "." in methodname:
        return methodname, "__init__"
    return classname, methodname


def check_loaded(m, queue, entries, what):
    m.eq(len(queue), len(entries), f"{what}: commands loaded")
    last = None
    for i, (command, entry) in enumerate(zip(queue, entries)):
        label = f"{what}: command {i} ({entry['method']})"
        m.eq(normal(command.classname, command.methodname), split_method(dumps.canonical(entry["method"])),
             f"{label}: class and method")
        m.eq(list(command.parameters), list(entry["parameters"]), f"{label}: parameter names")
        m.eq(int(command.parameters["id"]), entry["parameters"]["id"], f"{label}: object id")
        for key, value in entry["parameters"].items():
            got = command.parameters[key]
            m.check(got == value or (got != got and value != value), f"{label}: {key} is {got!r}, stored {value!r}")
            m.check(isinstance(got, type(value)), f"{label}: {key} is a {type(got).__name__}")
        if last is not None:
            m.check(command.id > last, f"{label}: command ids do not increase")
        last = command.id


def save_load(m):
    queues = [gsp.io.queue("active")]
    dumps.fill(m, m.integer(0, 14))
    for _ in range(m.integer(0, 2)):
        queues.append(env.new_queue())
        if m.chance(0.7):
            dumps.fill(m, m.integer(1, 8))
    source = m.pick(queues)
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, m.pick(["queue.json", "data", "a b.é.json", "x.txt"]))
        before = dumps.snapshot(queues)
        if m.chance(0.4):
            # an existing file is replaced, whatever its size
            with open(path, "w", encoding="utf-8") as stream:
                stream.write(m.pick(["", "{}", '{"commands": []}\n', "x" * 20000]))
            m.seen("existing", target_size := os.path.getsize(path))
            m.event("existing file of", target_size, "bytes")
        gsp.io.json.save(path, source)
        m.check(dumps.snapshot(queues) == before, "saving changed a queue")
        with open(path, encoding="utf-8") as stream:
            payload = json.load(stream)
        dumps.check_dump(m, payload, list(source), "saved file")
        entries = payload["commands"]
        size = len(entries)
        target = m.pick(["new", "same", "other", "default"])
        active = gsp.io.queue("active")
        others = list(queues)
        if target == "new":
            queue = env.new_queue()
            active = queue
        elif target == "same":
            queue = source
        elif target == "other":
            queue = m.pick(queues)
        else:
            queue = active
        others = [q for q in others if q is not queue]
        queue.readonly = False
        before = dumps.snapshot(others)
        result = gsp.io.json.load(path) if target == "default" else gsp.io.json.load(path, queue)
        m.check(result is None or result is queue, "load returns the queue it filled")
        m.check(dumps.snapshot(others) == before, "loading changed another queue")
        m.check(gsp.io.queue("active") is active, "loading changed the active queue")
        what = f"loaded into {target}"
        check_loaded(m, queue, entries, what)
        # Saving what was loaded stores the same again
        again = m.pick([path, os.path.join(folder, "again.json")])
        gsp.io.json.save(again, queue)
        with open(again, encoding="utf-8") as stream:
            second = json.load(stream)["commands"]
        m.eq(len(second), size, "entries saved again")
        for a, b in zip(second, entries):
            m.check(dumps.canonical(a["method"]) == dumps.canonical(b["method"]) and
                    (a["parameters"] == b["parameters"] or "NaN" in json.dumps(b)),
                    f"saved again: {a} instead of {b}")
        m.event(what, size, "commands", [e["method"] for e in entries[:6]])
        m.seen(target, tuple(sorted({e["method"] for e in entries})))


def one_call(m):
    """gsp.save and gsp.load."""
    other = gsp.io.queue("active")
    dumps.fill(m, m.integer(0, 6))
    queue = env.new_queue()
    dumps.fill(m, m.integer(0, 10))
    with tempfile.TemporaryDirectory() as folder:
        name, format, good = m.pick([
            ("a.json", None, True), ("a.json", "json", True), ("a", "json", True), ("a.txt", "json", True),
            ("a.b.json", None, True), ("dir.json.d/a.json", None, True), ("a.json.gz", "json", True),
            ("a.txt", None, False), ("a", None, False), ("a.json", "yaml", False), ("a.json", "txt", False),
            ("json", None, False), ("a.", None, False), ("a.json.bak", None, False), (".json", None, False),
            ("a.jsonx", None, False), ("a.xjson", None, False)])
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        import pathlib
        argument = pathlib.Path(path) if m.chance(0.3) else path
        before = dumps.snapshot([other, queue])
        save = m.pick([lambda: gsp.save(argument, format),
                       lambda: gsp.save(filename=argument, format=format)])
        if format is None and m.chance():
            save = lambda: gsp.save(argument)
        what = f"save({name!r}, {format!r})"
        m.event(what, len(queue))
        m.seen(name, format, isinstance(argument, str), len(queue) > 0)
        if not good:
            m.raises(ValueError, save, what)
            m.check(not os.path.exists(path), f"{what}: refused but wrote a file")
            m.check(dumps.snapshot([other, queue]) == before, f"{what}: changed a queue")
            # A proper file, then loading it under the refused format
            gsp.io.json.save(path, queue)
            m.raises(ValueError, lambda: gsp.load(argument, format), f"load({name!r}, {format!r})")
            m.check(dumps.snapshot([other]) == before[:1], f"load({name!r}): changed another queue")
            return
        if m.chance(0.4):
            with open(path, "w", encoding="utf-8") as stream:
                stream.write(m.pick(["{}", "[1, 2]\n" * 3000]))
        save()
        m.check(dumps.snapshot([other, queue]) == before, f"{what}: changed a queue")
        with open(path, encoding="utf-8") as stream:
            payload = json.load(stream)
        dumps.check_dump(m, payload, list(queue), what)
        dumps.fill(m, m.integer(0, 5))
        if m.chance():
            queue = env.new_queue()
            dumps.fill(m, m.integer(0, 5))
        others = [other]
        before = dumps.snapshot(others)
        result = gsp.load(argument, format) if format or m.chance() else gsp.load(argument)
        m.check(result is gsp.io.queue("active") and result is queue, "load returns the active queue")
        m.eq(len(Object.objects), 0, "objects registered after a load")
        m.check(dumps.snapshot(others) == before, "load changed another queue")
        check_loaded(m, result, payload["commands"], f"load({name!r}, {format!r})")


def dotted(m):
    """Commands of classes whose names have dots, pushed by hand."""
    queue = gsp.io.queue("active")
    env.advance(m)
    want = []
    for _ in range(m.integer(1, 8)):
        name = ".".join(m.pick(["my", "Thing", "core", "gsp", "a", "Ünit"]) for _ in range(m.integer(1, 3)))
        method = m.pick(["update", "render", "set_data", "__init__", "a_b"])
        if "." not in name and method == "__init__":
            method = f"{m.pick(['core', 'my.package'])}.{name}"
        params = {"id": m.integer(1, 10**6)}
        for key in ("x", "data", "viewport(id)")[:m.integer(0, 3)]:
            params[key] = m.pick([1, 2.5, "text/with.dots", None, True])
        queue.push(gsp.io.Command(name, method, params))
        want.append((name, method, params))
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "a.json")
        gsp.io.json.save(path, queue)
        loaded = gsp.io.json.load(path, env.new_queue())
    m.eq(len(loaded), len(want), "commands loaded")
    for command, (name, method, params) in zip(loaded, want):
        m.eq(normal(command.classname, command.methodname), normal(name, method), "class and method loaded")
        m.eq(dict(command.parameters), params, f"parameters of {name}/{method}")
        m.seen("dotted", name, method)
    m.event("dotted", want[0][:2])


def recording_modes(m):
    """Loading works while recording is off, and recording resumes after it."""
    dumps.fill(m, m.integer(1, 6))
    source = gsp.io.queue("active")
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "a.json")
        gsp.save(path)
        with open(path, encoding="utf-8") as stream:
            entries = json.load(stream)["commands"]
        gsp.io.record(False)
        queue = env.new_queue()
        gsp.io.json.load(path, queue)
        gsp.io.record(True)
        check_loaded(m, queue, entries, "loaded with recording off")
        gsp.transform.Pixel()
        m.eq(len(queue), len(entries) + 1, "recording after a load")
    m.seen("modes", len(entries))


RANDOM = [(save_load, 100, 1800), (one_call, 80, 900), (recording_modes, 8, 80), (dotted, 30, 300)]
