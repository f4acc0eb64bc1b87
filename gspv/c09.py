"""C09 — replaying a queue rebuilds every object under its recorded id."""
import json
import os
import subprocess
import sys
import tempfile
import types

import numpy as np

from . import env, state
from .core import Monitor
from .dumps import canonical
from .env import Object, backend, gsp
from .protocol import Scripter, resolve

ID = "C09"
RULE = ("random scripts of protocol calls (canvases, viewports, buffers, lists, all visuals, renders, transforms, "
        "setters, user classes, arithmetic and chained transforms) recorded and replayed directly, after JSON save "
        "and load, with an empty or full registry, twice, and in a fresh process; every object found under its "
        "recorded id is compared with a twin built directly with the same calls; non-trivial = distinct "
        "(replay form, kinds of objects)")
MIN = 500


class Original:
    """The calls of a script made directly, and the recorded queue of the same calls."""

    def __init__(self, m, steps, source):
        bits = m.rng.bit_generator.state
        self.queue = gsp.io.queue("active")
        self.rendered = set()
        recorder = Scripter(m, source, common=True)
        for _ in range(steps):
            call = recorder.step()
        self.ids = [int(o.id) for o in recorder.created]
        self.originals = recorder.created           # keeps them alive
        after = m.rng.bit_generator.state
        m.rng.bit_generator.state = bits
        if source == "gsp":
            registry, Object.objects = Object.objects, {}
            with env.quiet():
                builder = Scripter(m, "backend", common=True)
                for _ in range(steps):
                    call = builder.step()
                    if call.methodname == "render":
                        self.rendered.add(next(i for i, o in enumerate(builder.created) if o is call.obj))
            Object.objects = registry
            self.twins = builder.created
        m.rng.bit_generator.state = after
        if source != "gsp":
            self.twins = self.originals
            self.rendered = set()
        with env.quiet():
            self.states = [state.describe(t, i in self.rendered) for i, t in enumerate(self.twins)]


def compare(m, original, what):
    for i, (oid, want) in enumerate(zip(original.ids, original.states)):
        m.check(oid in Object.objects, f"{what}: no object under id {oid} ({want[0]})")
        obj = Object.objects[oid]
        m.eq(int(obj.id), oid, f"{what}: id of the object found under it")
        m.check(obj is not original.originals[i] and obj is not original.twins[i],
                f"{what}: {want[0]} {oid} was not recreated")
        with env.quiet():
            got = state.describe(obj, i in original.rendered)
        m.check(state.same(got, want), f"{what}: {want[0]} {oid} is {got}, original {want}")


def references(m, queue, what):
    """References of the recreated visuals are the recreated objects."""
    for command in queue:
        for key, value in command.parameters.items():
            if key.endswith("(id)") and command.parameters["id"] in Object.objects:
                obj = Object.objects[command.parameters["id"]]
                if type(obj).__name__ in state.IN_VARIABLES and key[:-4] in state.IN_VARIABLES[type(obj).__name__]:
                    m.check(obj.get_variable(key[:-4]) is Object.objects[value],
                            f"{what}: {key} of {type(obj).__name__} is not the recreated object")


def fresh_ids(m, ids, what):
    """Objects created after a replay do not take over replayed ids."""
    held = {oid: Object.objects[oid] for oid in ids}
    with env.quiet():
        made = [m.pick([gsp.transform.Pixel, gsp.transform.X,
                        lambda: gsp.transform.Pixel() + gsp.transform.Inch()])() for _ in range(m.integer(1, 6))]
    for obj in made:
        m.check(int(obj.id) not in held, f"{what}: a new object got the replayed id {obj.id}")
    for oid, obj in held.items():
        m.check(Object.objects.get(oid) is obj, f"{what}: id {oid} was taken over")


FORMS = ["direct", "direct empty", "saved", "saved one call", "saved other queue", "twice", "loaded twice"]


def replay(m, queue, ids, form, verify, what):
    # Also while new objects are not registered: replayed ones are found all the same
    registering, Object.record = Object.record, m.chance(0.85)
    try:
        return replay_form(m, queue, ids, form, verify, what + ("" if Object.record else ", registration off"))
    finally:
        Object.record = registering


def replay_form(m, queue, ids, form, verify, what):
    if form == "direct empty":
        Object.objects = {}
    if form in ("direct", "direct empty", "twice"):
        queue.run(backend)
        verify(what)
        if form == "twice":
            first = {oid: Object.objects[oid] for oid in ids}
            queue.run(backend)
            verify(what + " again")
            m.check(all(Object.objects[oid] is not first[oid] for oid in ids), f"{what}: objects not recreated")
        return queue
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "script.json")
        gsp.io.json.save(path, queue)
        if form == "saved one call":
            loaded = gsp.load(path)
        elif form == "saved other queue":
            loaded = env.new_queue()
            gsp.io.json.load(path, queue)
            loaded = queue
        else:
            Object.objects = {} if m.chance() else Object.objects
            loaded = env.new_queue()
            gsp.io.json.load(path, loaded)
    loaded.run(backend)
    verify(what)
    if form == "loaded twice":
        if m.chance():
            Object.objects = {}
        loaded.run(backend)
        verify(what + " again")
    return loaded


def scripts(m):
    source = m.pick(["gsp", "gsp", "gsp", "backend"])
    original = Original(m, m.integer(3, 16), source)
    form = m.pick(FORMS)
    what = f"{source} script, {form}"
    m.event(what, [c.methodname for c in original.queue])
    lengths = len(original.queue)
    loaded = replay(m, original.queue, original.ids, form, lambda w: compare(m, original, w), what)
    references(m, loaded, what)
    fresh_ids(m, original.ids, what)
    m.check(len(original.queue) >= lengths, "replay removed commands")
    m.seen(form, source, tuple(sorted({s[0] for s in original.states})))


def transforms(m):
    """Arithmetic, chained, bound and copied transforms."""
    T = gsp.transform
    pool = []

    def leaf():
        kind = m.integer(0, 5)
        if kind == 0:
            return getattr(T, m.pick(["Pixel", "Inch", "Point", "Centimeter"]))()
        if kind == 1:
            return T.Out(m.pick(["screen[positions].x", "screen[positions].z", "sizes"]))
        if kind == 2:
            return T.X(backend.core.Buffer(4, np.dtype(np.float32), np.arange(m.integer(1, 3) * 4, dtype=np.float32)
                                           .tobytes()[:16]))
        if kind == 3:
            return T.Colormap(m.pick(["gray", "magma"]), m.pick([0.0, -1.0]), m.pick([1.0, 8.0]))
        if kind == 4 and m.chance():
            array = np.arange(8, dtype=np.float32).view([("x", np.float32), ("u", np.float32)])
            return T.Accessor(backend.core.Buffer(4, array.dtype, array.tobytes()), m.pick("xu"))
        return getattr(T, m.pick("XYZ"))()

    for _ in range(m.integer(2, 10)):
        a = m.pick(pool) if pool and m.chance(0.6) else leaf()
        kind = m.integer(0, 6)
        try:
            if kind <= 1:
                b = m.pick(pool) if pool and m.chance(0.5) else leaf()
                a = m.pick([lambda: a + b, lambda: a - b, lambda: a * b, lambda: a / b])()
            elif kind == 2:
                n = m.pick([2, 0.5, -3.25])
                a = m.pick([lambda: a + n, lambda: n - a, lambda: a * n, lambda: n / a])()
            elif kind == 3:
                a = a(m.pick([leaf, lambda: T.Out("screen[positions]")])())
            elif kind == 4:
                a = a.copy()
            elif kind == 5:
                a = -a
            elif isinstance(a, T.Measure):
                a = a(m.pick([2.5, 7.0]))
        except (ValueError, TypeError, AttributeError):
            continue
        pool.append(a)
    queue = gsp.io.queue("active")
    originals = dict(Object.objects)
    with env.quiet():
        wanted = {int(oid): state.transform(o) for oid, o in originals.items() if isinstance(o, T.Transform)}

    def verify(what):
        for oid, want in wanted.items():
            m.check(oid in Object.objects, f"{what}: no object under id {oid}")
            obj = Object.objects[oid]
            m.check(obj is not originals[oid], f"{what}: {want[0]} {oid} was not recreated")
            with env.quiet():
                got = state.transform(obj)
            m.check(state.same(got, want), f"{what}: {want[0]} {oid} is {got}, original {want}")
            m.check(obj.base is Object.objects[int(originals[oid].base.id)], f"{what}: base of {want[0]} {oid}")
    form = m.pick(FORMS)
    m.event(form, [c.classname for c in queue])
    replay(m, queue, list(wanted), form, verify, f"transforms, {form}")
    fresh_ids(m, list(wanted), f"transforms, {form}")
    m.seen(form, tuple(sorted({w[0] for w in wanted.values()})))


def present_values(m):
    """Arrays handed over are seen with the values they have when the queue is run, each time."""
    queue = gsp.io.queue("active")
    kept = []
    for _ in range(m.integer(1, 4)):
        n = m.integer(2, 6)
        P = m.rng.uniform(-1, 1, (n, 3)).astype(np.float32)
        C = m.rng.uniform(0, 1, (n, 4)).astype(np.float32)
        S = m.rng.uniform(1, 9, n).astype(np.float32)
        if m.chance():
            visual = gsp.visual.Points(P, S, C, gsp.core.Color(0.0, 0.0, 0.0, 1.0), 1.0)
            kept.append((int(visual.id), {"positions": P, "sizes": S, "fill_colors": C}))
        else:
            visual = gsp.visual.Pixels(P, C)
            kept.append((int(visual.id), {"positions": P, "colors": C}))
    commands = [(c, {k: (type(v), id(v)) for k, v in c.parameters.items()}) for c in queue]
    for step in range(m.integer(2, 4)):
        if step:
            for _, arrays in kept:
                for A in arrays.values():
                    if m.chance(0.7):
                        A[m.integer(0, len(A) - 1)] = m.real(0, 1)
        queue.run(backend)
        for oid, arrays in kept:
            for name, A in arrays.items():
                got = np.asarray(Object.objects[oid].get_variable(name))
                m.check(got.size == A.size and np.array_equal(got.ravel(), A.ravel()),
                        f"run {step + 1}: {name} of {oid} is {got.tolist()}, the array {A.tolist()}")
        m.eq([c for c in queue], [c for c, _ in commands], "commands after a run")
        for c, before in commands:
            m.check({k: (type(v), id(v)) for k, v in c.parameters.items()} == before,
                    f"run {step + 1} changed the parameters of {c.methodname}")
    m.event("present values", [k for k, _ in kept])
    m.seen("present", len(kept), step)


def user_package():
    """A protocol and a backend package of the same classes, whose state is their history."""
    from gsp.io.command import command

    class Length:
        def __init__(self, metres):
            self.metres = metres

    def build(kind):
        module = types.ModuleType(kind)
        module.Length = Length
        module.sub = types.ModuleType("sub")

        class Node(Object):
            @command("sub.Node")
            def __init__(self, value: int = 1, link: Object = None, other: Object = None):
                Object.__init__(self)
                self.history = [("init", value, link, other)]

            @command()
            def set(self, value, link: Object = None):
                self.history.append(("set", value, link, None))
                return value

            @command("renamed")
            def rename(self, value):
                self.history.append(("renamed", value, None, None))

            renamed = rename

            @command()
            def resize(self, size: float):
                self.history.append(("size", size, None, None))

        class Leaf(Node):
            @command("sub.Leaf")
            def __init__(self, value: int = 7, link: Object = None):
                Node.__init__(self, value, link, __no_command__=True)
                self.history.append(("leaf", value, None, None))

        class Plain(Object):
            @command()
            def __init__(self, value: int, link: Object = None):
                Object.__init__(self)
                self.history = [("init", value, link, None)]

            @command()
            def set(self, value, link: Object = None):
                self.history.append(("set", value, link, None))

        module.sub.Node, module.sub.Leaf, module.Plain = Node, Leaf, Plain
        return module
    return build("front"), build("back")


def user_graphs(m):
    front, back = user_package()
    gsp.io.unregister("Length", "float")
    gsp.io.register("Length", "float")(lambda length: float(length.metres))
    try:
        graphs(m, front, back)
    finally:
        gsp.io.unregister("Length", "float")


def graphs(m, front, back):
    objects = []
    link = lambda: m.pick(objects + [None]) if objects else None
    value = lambda: m.pick([m.integer(-5, 99), 0, 1])
    anything = lambda: m.pick([m.integer(-5, 5), m.real(-1, 1), "text", None, [1, 2, [3]], "", 0, objects and 3])
    for _ in range(m.integer(2, 14)):
        kind = m.integer(0, 6) if objects else m.integer(0, 2)
        if kind == 0:
            args = [value(), link(), link()][:m.integer(0, 3)]
            objects.append(front.sub.Node(*args))
        elif kind == 1:
            objects.append(front.sub.Leaf(**({"value": value()} if m.chance() else {}),
                                          **({"link": link()} if m.chance() else {})))
        elif kind == 2:
            objects.append(front.Plain(value(), link=link()))
        elif kind == 3:
            nodes = [o for o in objects if isinstance(o, front.sub.Node)]
            if nodes and m.chance():
                m.pick(nodes).resize(m.pick([2.5, front.Length(m.real(0, 9)), front.Length(m.integer(0, 9))]))
            elif nodes:
                m.pick(nodes).rename(anything())
        else:
            m.pick(objects).set(anything(), link())
    queue = gsp.io.queue("active")
    if m.chance(0.3):
        # An object's id was chosen by the user before the calls that follow
        odd = front.Plain(3)
        odd.set(1, objects[0])
        objects.append(odd)
    wanted = {int(o.id): (type(o).__name__, list(o.history)) for o in objects}

    def verify(what):
        for oid, (kind, history) in wanted.items():
            m.check(oid in Object.objects, f"{what}: no object under id {oid}")
            obj = Object.objects[oid]
            m.eq(int(obj.id), oid, f"{what}: id of the object found under it")
            m.check(type(obj).__module__ == __name__ and isinstance(obj, (back.sub.Node, back.Plain)),
                    f"{what}: {oid} was not made by the given package")
            m.eq(type(obj).__name__, kind, f"{what}: class of {oid}")
            m.eq(len(obj.history), len(history), f"{what}: calls applied to {kind} {oid}")
            for got, want in zip(obj.history, history):
                given = want[1]
                if isinstance(given, front.Length):
                    # The call is made with what the argument is converted to
                    m.check(type(got[1]) is float, f"{what}: {kind} {oid} resized with {got[1]!r}")
                    given = float(given.metres)
                m.eq(got[:2], (want[0], given), f"{what}: call applied to {kind} {oid}")
                for g, w in zip(got[2:], want[2:]):
                    if w is None:
                        m.check(g is None, f"{what}: reference {g} in {kind} {oid}")
                    else:
                        m.check(g is Object.objects[int(w.id)], f"{what}: reference in {kind} {oid}")
    form = m.pick(FORMS)
    what = f"user classes, {form}"
    m.event(what, [c.methodname for c in queue])
    global backend
    saved, backend = backend, back
    try:
        replay(m, queue, list(wanted), form, verify, what)
    finally:
        backend = saved
    fresh_ids(m, list(wanted), what)
    m.seen(form, tuple(kind for kind, _ in wanted.values())[:4], len(wanted))


CHILD = """
import json, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
from gspv import env, state
from gspv.env import Object, backend, gsp
out = []
for job in json.load(open(sys.argv[1])):
    queue = gsp.load(job["path"])
    queue.run(backend)
    gsp.io.record(False)
    states = []
    for oid, rendered in zip(job["ids"], job["rendered"]):
        obj = Object.objects.get(oid)
        states.append(None if obj is None or obj.id != oid else state.describe(obj, rendered))
    new = [int(gsp.transform.Pixel().id) for _ in range(4)]
    gsp.io.record(True)
    out.append({"states": states, "new": new})
json.dump(out, open(sys.argv[2], "w"))
"""


def fresh_process(m):
    with tempfile.TemporaryDirectory() as folder:
        jobs, originals = [], []
        for i in range(m.integer(2, 5)):
            env.new_queue()
            original = Original(m, m.integer(4, 14), "gsp")
            path = os.path.join(folder, f"{i}.json")
            gsp.save(path)
            originals.append(original)
            jobs.append({"path": path, "ids": original.ids,
                         "rendered": [k in original.rendered for k in range(len(original.ids))]})
        with open(os.path.join(folder, "jobs.json"), "w") as stream:
            json.dump(jobs, stream)
        run = subprocess.run([sys.executable, "-c", CHILD, os.path.join(folder, "jobs.json"),
                              os.path.join(folder, "out.json")], capture_output=True, text=True, timeout=100)
        m.check(run.returncode == 0, f"replay in a fresh process failed: {run.stderr[-600:]}")
        with open(os.path.join(folder, "out.json")) as stream:
            results = json.load(stream)
    for original, result in zip(originals, results):
        for oid, want, got in zip(original.ids, original.states, result["states"]):
            m.check(got is not None, f"fresh process: no object under id {oid} ({want[0]})")
            m.check(state.same(got, json.loads(json.dumps(want))), f"fresh process: {want[0]} {oid} is {got}, original {want}")
        m.check(not set(result["new"]) & set(original.ids), "fresh process: a new object got a replayed id")
        m.seen("fresh", tuple(sorted({s[0] for s in original.states})))
    m.event("fresh process", [o.ids for o in originals])


RANDOM = [(present_values, 20, 300), (scripts, 60, 900), (transforms, 60, 800), (user_graphs, 80, 1200), (fresh_process, 3, 16)]
