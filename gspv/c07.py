"""C07 — a JSON dump states exactly the queue it was asked for."""
import json
import os
import tempfile

import numpy as np

from . import dumps, env
from .env import Object, backend, gsp

ID = "C07"
RULE = ("queues filled by random protocol and backend calls, user commands with every kind of plain value, "
        "tracked arrays and nested lists, dumped as text and to a file while active or not, empty or not, "
        "read-only or with recording off; the decoded dump is compared entry by entry with the commands by "
        "an independent reader that also checks creation before use and rebuilds converted objects; all "
        "queues and values are compared before and after; non-trivial = distinct sets of methods dumped")
MIN = 400
QUICK = 20


def dump_and_check(m, queue, queues, what):
    """Text and file dumps of the queue, with all queues unchanged."""
    before = dumps.snapshot(queues)
    active = gsp.io.queue("active")
    use_default = queue is active and m.chance()
    text = gsp.io.json.dump() if use_default else gsp.io.json.dump(queue)
    m.check(isinstance(text, str), f"{what}: dump returns text")
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "dump.json")
        kind = m.integer(0, 2)
        if kind == 0:
            gsp.io.json.dump(queue, path)
        elif kind == 1:
            gsp.io.json.save(path, queue)
        elif queue is active:
            gsp.save(path, m.pick([None, "json"]))
        else:
            gsp.io.json.dump(queue=queue, filename=path)
        with open(path, encoding="utf-8") as stream:
            from_file = json.load(stream)
    m.check(dumps.snapshot(queues) == before, f"{what}: dumping changed a queue or a value")
    m.check(gsp.io.queue("active") is active, f"{what}: dumping changed the active queue")
    commands = list(queue)
    payload = json.loads(text)
    extra = dumps.check_dump(m, payload, commands, what)
    dumps.check_dump(m, from_file, commands, what + " (file)")
    m.check(dumps.normalised(payload, commands) == dumps.normalised(from_file, commands),
            f"{what}: text and file dumps differ")
    m.event(what, len(commands), "commands", extra, "created by conversions",
            "default" if use_default else "given", "kind", kind)
    m.seen(tuple(sorted({dumps.method_of(c) for c in commands})), queue is active, extra > 0)


def queues_in_any_state(m):
    queues = [gsp.io.queue("active")]
    for _ in range(m.integer(1, 3)):
        if m.chance(0.85):
            dumps.fill(m, m.integer(1, 14))
        if m.chance(0.8):
            queues.append(env.new_queue())
    for queue in queues:
        queue.readonly = m.chance(0.2)
    gsp.io.record(m.chance(0.8))
    for queue in queues:
        dump_and_check(m, queue, queues, f"dump of {'the active' if queue is queues[-1] else 'another'} queue")
    gsp.io.record(True)
    # Recording goes on after the dumps
    queues[-1].readonly = False
    size = len(queues[-1])
    gsp.transform.Pixel()
    m.eq(len(queues[-1]), size + 1, "recording after a dump")


def arrays(m):
    """Arrays, tracked arrays, their views and nested lists become created objects."""
    from gsp_matplotlib import glm
    queue = gsp.io.queue("active")
    C, V = gsp.core, m.pick([gsp.visual, backend.visual])
    n = m.integer(2, 6)
    base = m.rng.uniform(0.1, 0.9, (n, 3)).astype(m.pick([np.float32, np.float64]))
    kind = m.integer(0, 4)
    if kind == 0:
        positions = base
    elif kind == 1:
        positions = base[::-1] if V is gsp.visual else base
    elif kind == 2:
        positions = base.view(glm.ndarray.tracked)
    elif kind == 3:
        tracked = np.concatenate([base, base]).view(glm.ndarray.tracked)
        positions = tracked[n:]
    else:
        positions = glm.vec3(n)
        positions[:] = base
    colors = m.rng.uniform(0, 1, (n, 4)).astype(np.float32)
    white = [1.0, 0.5, 0.25, 1.0]
    indices = m.pick([[list(range(n))], [[0, 1], [1, 0, n - 1]], [n], n, [[0], list(range(n))]])
    if kind >= 2 and m.chance():
        positions[m.integer(0, n - 1)] = 0.25
    V.Pixels(positions, colors)
    V.Paths(positions, indices, white, m.pick([1.0, 2.5]), C.LineStyle.solid, C.LineJoin.miter,
            C.LineCap.round)
    if kind < 2 and m.chance():
        base[0] = 0.5           # arrays are converted when dumped
    dump_and_check(m, queue, [queue], f"arrays of kind {kind}")
    text = json.loads(gsp.io.json.dump(queue))
    used = [e["parameters"] for e in text["commands"] if e["method"] == "visual.Pixels"]
    reader = dumps.Reader(m, "arrays")
    for entry in text["commands"]:
        reader.feed(entry)
        if entry["method"] == "visual.Pixels":
            break
    made = reader.objects[used[0]["positions(id)"]]
    m.check(bytes(made["bytes"]) == np.ascontiguousarray(positions).tobytes(),
            "the dumped positions are the array's bytes")
    made = reader.objects[used[0]["colors(id)"]]
    m.check(bytes(made["bytes"]) == colors.tobytes(), "the dumped colours are the array's bytes")
    m.seen("arrays", kind, base.dtype.str, n, repr(indices))


def empty_queue(m):
    """An empty queue dumps as empty whatever the active queue holds, and the other way round."""
    first = gsp.io.queue("active")
    dumps.fill(m, 5)
    second = env.new_queue()
    for queue, n in ((first, len(first)), (second, 0)):
        m.eq(len(json.loads(gsp.io.json.dump(queue))["commands"]) >= n if n else
             len(json.loads(gsp.io.json.dump(queue))["commands"]), True if n else 0,
             "entries of the dump")
    dumps.fill(m, 5)
    first.empty()
    dump_and_check(m, first, [first, second], "emptied queue")
    m.eq(json.loads(gsp.io.json.dump(first))["commands"], [], "dump of an emptied queue")
    dump_and_check(m, second, [first, second], "filled queue")
    m.seen("empty")


def later_changes(m):
    """Dumping twice, or after more calls, adds the new commands only."""
    queue = gsp.io.queue("active")
    dumps.fill(m, m.integer(1, 8))
    commands = list(queue)
    one = dumps.normalised(json.loads(gsp.io.json.dump(queue)), commands)
    two = dumps.normalised(json.loads(gsp.io.json.dump(queue)), commands)
    m.check(one == two, "two dumps of the same queue differ")
    dumps.fill(m, m.integer(1, 5))
    three = dumps.normalised(json.loads(gsp.io.json.dump(queue)), list(queue))
    m.check(len(three) >= len(one), "a dump after more calls is shorter")
    dump_and_check(m, queue, [queue], "after more calls")


RANDOM = [(queues_in_any_state, 80, 1500), (arrays, 60, 800), (empty_queue, 6, 60), (later_changes, 10, 200)]
