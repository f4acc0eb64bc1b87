"""C02 — recording can be switched off; replay never records."""
import types

import numpy as np

from . import env
from .core import Monitor
from .env import Object, backend, glm, gsp
from .protocol import Scripter

ID = "C02"
RULE = ("random histories of protocol calls, record(True/False), read-only switches on several queues, "
        "queue runs that succeed or fail half way (also nested); after every step all queues are compared "
        "with a model; the same call script run in different recording modes must leave equal objects; "
        "non-trivial = distinct (step kind, recording, read-only, outcome)")
MIN = 400
QUICK = 20


class Boom(Exception):
    pass


def user_module():
    """A small backend whose calls may fail, or run another queue."""
    from gsp.io.command import command
    module = types.ModuleType("user_backend")

    class Thing(Object):
        @command()
        def __init__(self, value: int, other: Object = None):
            Object.__init__(self)
            self.value, self.other = value, other

        @command()
        def add(self, amount: int = 1):
            self.value += amount
            return self.value

        @command("add")
        def increase(self, amount: int = 1):
            self.value += amount
            return self.value

        @command()
        def maybe_fail(self, level: int):
            if level >= module.fail_from:
                raise Boom()
            self.value -= level
            return self.value

        @command()
        def spawn(self, value: int):
            child = Thing(value)
            child.add(2)
            return child.value

        @command()
        def run_other(self, depth: int):
            if module.other is not None:
                other, module.other = module.other, None
                other.run(module)
            return depth

    module.Thing = Thing
    module.fail_from = 10 ** 9
    module.other = None
    return module


class Queues:
    """Model of every queue of the case: name -> commands it must hold."""

    def __init__(self, m):
        self.m = m
        self.queues, self.model = [], {}

    def add(self, queue):
        self.queues.append(queue)
        self.model[id(queue)] = [queue[i] for i in range(len(queue))]
        return queue

    def verify(self, what):
        for queue in self.queues:
            have, want = list(queue), self.model[id(queue)]
            self.m.check(len(have) == len(want) and all(a is b for a, b in zip(have, want)),
                         f"{what}: queue {queue.name!r} holds {len(have)} commands, expected {len(want)}")

    def learn(self, queue, what, at_least=1):
        have, want = list(queue), self.model[id(queue)]
        self.m.check(len(have) >= len(want) + at_least and
                     all(a is b for a, b in zip(have, want)),
                     f"{what}: not recorded ({len(have) - len(want)} new commands)")
        self.model[id(queue)] = have


def history(m, package):
    module = user_module()
    world = Queues(m)
    world.add(gsp.io.queue("active"))
    recording = True
    active = world.queues[0]
    scripter = Scripter(m, package)
    things, arrays = [], []

    def call():
        """One protocol call (or a few, for the arguments)."""
        if m.chance(0.15):
            if not arrays or m.chance(0.3):
                arrays.append(m.pick([glm.vec2, glm.vec3, glm.vec4])(m.integer(1, 4)))
                return "tracked array", 1
            Z = m.pick(arrays)
            value = m.integer(0, 9)
            m.pick([lambda: Z.__setitem__(0, value), lambda: Z.__setitem__(slice(None), value),
                    lambda: Z[-1:].__setitem__(Ellipsis, value), lambda: setattr(Z, "x", value)])()
            m.check((np.asarray(Z).ravel() == value).any(), "a tracked array does not hold what was written")
            return "tracked write", 1
        if m.chance(0.5):
            kind = m.integer(0, 4) if things else 0
            before = {id(t): t.value for t in things}
            if kind == 0:
                thing = module.Thing(m.integer(0, 9), m.pick(things + [None]))
                things.append(thing)
                return "Thing()", 1
            thing = m.pick(things)
            if kind == 1:
                n = m.integer(-3, 3)
                m.eq(m.pick([thing.add, thing.increase])(n), before[id(thing)] + n, "result of a call")
                return "add", 1
            if kind == 2:
                n = m.integer(0, 5)
                m.eq(thing.maybe_fail(n), before[id(thing)] - n, "result of a call")
                return "maybe_fail", 1
            if kind == 3:
                n = m.integer(0, 5)
                m.eq(thing.spawn(n), n + 2, "result of a call")
                return "spawn", 3
            m.eq(thing.run_other(4), 4, "result of a call")
            return "run_other", 1
        made = scripter.step()
        return repr(made), 1

    for _ in range(m.integer(15, 40)):
        kind = m.integer(0, 9)
        if kind <= 4:
            what, least = call()
            m.event("call", what, "recording", recording, "read-only", active.readonly)
            m.seen("call", what.split("(")[0], recording, active.readonly)
            if recording and not active.readonly:
                world.learn(active, what, least)
            world.verify(f"{what} with recording={recording}, read-only={active.readonly}")
        elif kind == 5:
            recording = m.chance(0.6)
            state = m.pick([True, True, 1, np.bool_(True)] if recording else
                           [False, False, 0, np.bool_(False)])
            if state is False and m.chance():
                gsp.io.record()
            else:
                m.pick([lambda: gsp.io.record(state), lambda: gsp.io.record(state=state)])()
            m.event("record", repr(state))
            m.seen("record", repr(state))
            world.verify("record()")
        elif kind == 6:
            queue = m.pick(world.queues + [active])
            queue.readonly = m.chance(0.4)
            m.event("readonly", queue.name, queue.readonly)
            world.verify("read-only switch")
        elif kind == 7 and m.chance(0.3):
            queue = m.pick(world.queues + [active])
            readonly = queue.readonly
            queue.empty()
            world.model[id(queue)] = []
            m.event("empty", queue.name)
            m.eq(bool(queue.readonly), bool(readonly), "read-only flag of an emptied queue")
            m.check(gsp.io.queue("active") is active, "emptying a queue changes which one is active")
            world.verify("empty")
        elif kind == 7 and len(world.queues) < 4:
            active = world.add(env.new_queue("other"))
            m.event("new queue", active.name)
            world.verify("new queue")
        else:
            replay(m, world, module, things, scripter, package)
    gsp.io.record(True)
    active.readonly = False
    what, least = call()
    world.learn(active, "recording switched back on: " + what, least)
    world.verify(what)


def replay(m, world, module, things, scripter, package):
    """Run one of the queues (only those made of user commands, or of backend ones)."""
    queue = m.pick(world.queues)
    commands = list(queue)
    flags = {id(q): bool(q.readonly) for q in world.queues}
    registry = dict(Object.objects)
    target = module
    if all(c.classname != "Thing" for c in commands):
        target = backend
    # A queue whose creations belong to one backend only can be run; others fail somewhere
    module.fail_from = m.pick([10 ** 9, 10 ** 9, 0, 1, 3])
    others = [q for q in world.queues if q is not queue]
    module.other = m.pick(others) if others and m.chance(0.3) else None
    try:
        queue.run(target)
        outcome = "completed"
    except Boom:
        outcome = "failed"
    except Exception as error:     # mixed content: any failure is fine, its effect on queues is not
        outcome = "failed " + type(error).__name__
    module.fail_from = 10 ** 9
    module.other = None
    m.event("run", queue.name, len(commands), outcome)
    m.seen("run", outcome, flags[id(queue)], len(commands) > 0)
    world.verify(f"run ({outcome})")
    for q in world.queues:
        m.eq(bool(q.readonly), flags[id(q)], f"read-only flag of a queue after run ({outcome})")
    Object.objects.clear()
    Object.objects.update(registry)


def protocol_history(m):
    history(m, "gsp")


def backend_history(m):
    history(m, "backend")


def failing_runs(m):
    """A run failing at each position leaves everything as it was; recording still works."""
    module = user_module()
    queue = other = gsp.io.queue("active")
    run_active = m.chance()
    if run_active:
        queue = env.new_queue()
    n = m.integer(2, 8)
    thing = module.Thing(1000)
    for i in range(n):
        thing.maybe_fail(i)
    if not run_active:
        other = env.new_queue()
    active = gsp.io.queue("active")
    added = 0
    for readonly in (False, True):
        for fail in list(range(n)) + [10 ** 9]:
            queue.readonly = readonly
            module.fail_from = fail
            before, also = list(queue), list(other)
            failed = False
            try:
                queue.run(module)
            except Boom:
                failed = True
            m.eq(failed, fail < n, "the failing command fails the run")
            m.eq(queue.readonly, readonly, "read-only flag after run")
            m.check(list(queue) == before and list(other) == also, "a run changed a queue")
            module.fail_from = 10 ** 9
            replayed = Object.objects[thing.id]
            if fail >= n:
                m.eq(replayed.value, 1000 - sum(range(n)) + added, "state after the run")
            queue.readonly = False
            size = len(active)
            replayed.add(1)
            m.eq(len(active), size + 1, "recording after a run")
            added += run_active
            m.seen("failing", n, fail, readonly, failed, run_active)


def run_with_recording_off(m):
    """A run started while recording is off does not switch it on, nor one while on off."""
    module = user_module()
    queue = gsp.io.queue("active")
    thing = module.Thing(1)
    thing.add(2)
    for state in (False, True, False):
        gsp.io.record(state)
        for fail in (False, True):
            if fail:
                module.Thing, kept = None, module.Thing
                m.raises(TypeError, lambda: queue.run(module), "run without the class")
                module.Thing = kept
            else:
                queue.run(module)
            before = len(queue)
            thing = Object.objects[thing.id]
            thing.add(1)
            m.eq(len(queue) - before, 1 if state else 0, "calls recorded after a run")
            m.seen("off", state, fail)


def picture(value, ids, depth=0):
    """Comparable image of a value; objects are numbered in order of appearance."""
    if isinstance(value, Object):
        key = id(value)
        if key in ids:
            return ("object", ids[key])
        ids[key] = len(ids)
        attributes = {k: v for k, v in vars(value).items() if k not in ("_id", "_axes", "_figure")}
        return (type(value).__name__, ids[key],
                tuple((k, picture(v, ids, depth + 1)) for k, v in sorted(attributes.items())))
    if isinstance(value, np.ndarray):
        return (type(value).__name__, str(value.dtype), value.shape, value.tobytes())
    if isinstance(value, (bytes, memoryview)):
        return bytes(value)
    if isinstance(value, (list, tuple)):
        return tuple(picture(v, ids, depth + 1) for v in value)
    if isinstance(value, dict):
        return tuple((picture(k, ids, depth + 1), picture(v, ids, depth + 1)) for k, v in value.items())
    if isinstance(value, gsp.core.Matrix):
        return np.asarray(value).tobytes()
    if isinstance(value, (int, float, str, type(None), np.dtype)):
        return value
    return type(value).__name__


def same_effect(m):
    """The same script has the same results whatever the recording mode."""
    empty, np.empty = np.empty, np.zeros    # arrays not yet computed would differ
    try:
        same_effect_(m)
    finally:
        np.empty = empty


def same_effect_(m):
    seed = int(m.rng.integers(2 ** 31))
    steps = m.integer(8, 20)
    package = m.pick(["gsp", "backend"])
    reference = None
    for mode in ("on", "off", "read-only", "mixed"):
        env.fresh()
        queue = gsp.io.queue("active")
        queue.readonly = mode == "read-only"
        gsp.io.record(mode != "off")
        sub = Monitor(np.random.default_rng(seed), m.tier)
        scripter = Scripter(sub, package)
        ids, images = {}, []
        for i in range(steps):
            if mode == "mixed":
                gsp.io.record(i % 3 != 1)
                queue.readonly = i % 4 == 2
            call = scripter.step()
            images.append((repr(call), picture(call.result, ids), picture(call.obj, {})))
        if mode == "off" or mode == "read-only":
            m.eq(len(queue), 0, f"commands recorded in mode {mode}")
        else:
            m.check(len(queue) > 0, f"nothing recorded in mode {mode}")
        if reference is None:
            reference = images
        for got, want in zip(images, reference):
            m.check(got == want, f"call {want[0]} has another effect when recording is {mode}")
        m.seen("same", mode, package, steps)
    gsp.io.record(True)


FIXED = [run_with_recording_off]
RANDOM = [(protocol_history, 80, 1500), (backend_history, 40, 600), (failing_runs, 12, 60),
          (same_effect, 30, 400)]
