"""C03 — a queue name always denotes the same queue; queues are isolated."""
import json
import os
import subprocess
import sys

import numpy as np

from . import env
from .core import ROOT
from .env import Object, backend, gsp
from .protocol import Scripter

ID = "C03"
RULE = ("random histories of requesting queues by new, known and odd names, emptying, write-protecting, "
        "recording into and indexing them, all queues compared with a model after every step; some in a "
        "fresh interpreter starting with any kind of request; non-trivial = distinct (step kind, number "
        "of queues, active re-requested, read-only)")
MIN = 400
QUICK = 20

ODD = ["a", "A", " a", "a ", "active ", "Active", "none", "None", "défaut", "0", "default2", "x/y",
       "(id)", "a.b"]
LIKE = ["{}", "0{}", "00{}", "{}.0", "+{}", "{}e0", "{}0", " {}", "{}_", "-{}", "--{}"]      # numbers, as text


def check_contents(m, queue, want, what):
    m.eq(len(queue), len(want), f"{what}: length of queue {queue.name!r}")
    have = list(queue)
    m.check(len(have) == len(want) and all(a is b for a, b in zip(have, want)),
            f"{what}: content of queue {queue.name!r}")
    if want:
        i = m.integer(-len(want), len(want) - 1)
        m.check(queue[i] is want[i], f"{what}: item {i} of queue {queue.name!r}")
        cut = slice(m.pick([None, i, -2, 1]), m.pick([None, len(want), -1]), m.pick([None, 1, 2, 3, -1]))
        part, expected = list(queue[cut]), want[cut]
        m.check(len(part) == len(expected) and all(a is b for a, b in zip(part, expected)),
                f"{what}: {cut} of queue {queue.name!r}")
    m.raises(IndexError, lambda: queue[len(want)], f"{what}: item past the end of {queue.name!r}")


def history(m, package="gsp", reset=env.new_queue):
    prefix = f"{m.integer(0, 10 ** 9)}-"
    known = {}                              # name -> queue
    model = {}                              # name -> commands
    readonly = {}
    first = reset()
    known[first.name], model[first.name], readonly[first.name] = first, [], False
    active = first.name
    scripter = Scripter(m, package, convert=m.chance())
    ask = [gsp.io.queue, gsp.io.CommandQueue]
    for _ in range(m.integer(15, 45)):
        kind = m.integer(0, 9)
        if kind == 0 and len(known) < 8:
            name = prefix + m.pick(ODD) if m.chance(0.6) else m.pick(LIKE).format(prefix[:-1])
            new = name not in known
            queue = m.pick(ask)(name)
            if new:
                m.check(all(queue is not q for q in known.values()),
                        f"a new name {name!r} returned an existing queue")
                known[name], model[name], readonly[name] = queue, [], False
                active = name
                m.eq(queue.readonly, False, "a new queue is writable")
            m.check(known[name] is queue, f"name {name!r} returned another queue")
            what = "request new" if new else "request known"
        elif kind <= 2:
            name = m.pick(known)
            what = "request known" + (" active" if name == active else "")
            m.check(m.pick(ask)(name) is known[name], f"name {name!r} returned another queue")
        elif kind == 3:
            special = m.pick(["active", None])
            what = f"request {special}"
            m.check(m.pick(ask)(special) is known[active], f"{what}: not the most recently created queue")
        elif kind == 4:
            name = m.pick(known)
            what = "empty" + (" active" if name == active else "")
            m.check(known[name].empty() is known[name], "empty() returns the queue")
            model[name] = []
        elif kind == 6 and m.chance(0.5):
            # Commands handed to a given queue, whatever the active one is
            name = m.pick(known)
            what = "push" + (" active" if name == active else "")
            for _ in range(m.integer(60, 400) if m.chance(0.05) else 1):
                command = gsp.io.Command("Pushed", "__init__", {"id": m.integer(1, 99)})
                m.eq(bool(known[name].push(command)), not readonly[name], f"{what}: accepted by {name!r}")
                if not readonly[name]:
                    model[name] = model[name] + [command]
        elif kind == 5:
            name = m.pick(known)
            readonly[name] = m.chance(0.5)
            known[name].readonly = readonly[name]
            what = "read-only" + (" active" if name == active else "")
        else:
            before = list(known[active])
            call = scripter.step()
            what = f"call {call}"
            if not readonly[active]:
                have = list(known[active])
                m.check(len(have) > len(before), f"{what} is not in the active queue")
                m.check(all(a is b for a, b in zip(have, model[active])), f"{what}: order")
                m.eq(int(have[-1].parameters["id"]), int(call.obj.id), f"{what}: object recorded last")
                model[active] = have
        m.event(what, "active", active, {n: len(c) for n, c in model.items()})
        m.seen(what.split(" ")[0], len(known), active == first.name, readonly[active],
               what.endswith("active"))
        for name, queue in known.items():
            check_contents(m, queue, model[name], what)
            m.eq(bool(queue.readonly), readonly[name], f"{what}: read-only flag of {name!r}")
            m.eq(queue.name, name, f"{what}: name")
        m.check(gsp.io.queue("active") is known[active], f"{what}: active queue changed")


def protocol_history(m):
    history(m)


def backend_history(m):
    history(m, "backend")


SCRIPT = r"""
import json, sys
import gsp, gsp.io
from gsp import Object
from gsp.io import command
class Foo(Object):
    @command()
    def __init__(self, value: int):
        Object.__init__(self)
first, names = json.loads(sys.argv[1])
queue = gsp.io.queue
out = []
seen = []
def tag(q):
    for i, s in enumerate(seen):
        if s is q:
            return i
    seen.append(q)
    return len(seen) - 1
for name in first + names:
    if name == "CALL":
        Foo(1)
        out.append(["call", [len(q) for q in seen]])
    elif name == "NOARG":
        out.append(["queue", tag(queue())])
    else:
        out.append(["queue", tag(queue(name))])
print(json.dumps(out))
"""


def predict(requests):
    """What a fresh interpreter must answer: index of the queue object, lengths after calls."""
    order, sizes, active, out = [], {}, None, []
    shown = []

    def create(name):
        nonlocal active
        if name not in order:
            order.append(name)
            sizes[name] = 0
            active = name
        return name

    for name in requests:
        if name == "CALL":
            target = active if active is not None else create("default")
            sizes[target] += 1
            out.append(["call", [sizes[n] for n in shown]])
            continue
        if name == "NOARG":
            target = create("default")
        elif name in ("active", None):
            target = active if active is not None else create("default")
        else:
            target = create(name)
        if target not in shown:
            shown.append(target)
        out.append(["queue", shown.index(target)])
    return out


def fresh_interpreter(m):
    """The very first requests, in a new process."""
    first = [m.pick(["active", None, "default", "NOARG", "CALL", "one", ""])]
    names = [m.pick(["active", None, "default", "NOARG", "CALL", "one", "two", "one", "", "0", "None"])
             for _ in range(m.integer(4, 12))]
    process = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps([first, names])],
                             capture_output=True, text=True, timeout=100)
    m.check(process.returncode == 0, f"fresh interpreter failed on {first + names}: "
                                     f"{process.stderr[-300:]}")
    got = json.loads(process.stdout.strip().splitlines()[-1])
    want = predict(first + names)
    m.event("fresh", first + names, got)
    m.seen("fresh", *first, *names)
    for i, (g, w) in enumerate(zip(got, want)):
        m.check(g == w, f"fresh interpreter, request {i} of {first + names}: got {g}, expected {w}")


RANDOM = [(protocol_history, 80, 1500), (backend_history, 20, 300), (fresh_interpreter, 18, 150)]
