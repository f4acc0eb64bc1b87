"""C11 — object ids are unique and the registry follows them."""
import gc

import numpy as np

from . import env
from .env import Object, backend, glm, gsp
from .protocol import Scripter

ID = "C11"
RULE = ("histories of object creations (all kinds, copies and intermediate objects included), id assignments, "
        "registration switched on and off, deletions and replays; after each step the registry is compared with a "
        "model and every id with all ids seen so far; pairs of objects built equal and then made different in one "
        "attribute are compared both ways; non-trivial = distinct (step kind, registration, outcome)")
MIN = 500
QUICK = 20


def user_classes():
    class Thing(Object):
        def __init__(self, **attributes):
            Object.__init__(self)
            for name, value in attributes.items():
                setattr(self, name, value)

    class Sub(Thing):
        pass

    class Twin(Object):
        def __init__(self, **attributes):
            Object.__init__(self)
            for name, value in attributes.items():
                setattr(self, name, value)
    return Thing, Sub, Twin


class Watch:
    """Observes every object initialised, in order, with the id it was given."""

    def __enter__(self):
        self.original = Object.__init__
        self.made = []
        watch = self

        def init(obj, *args, **kwargs):
            watch.original(obj, *args, **kwargs)
            watch.made.append((obj, int(obj.id)))
        Object.__init__ = init
        return self

    def __exit__(self, *exc):
        Object.__init__ = self.original


def histories(m):
    T = gsp.transform
    Thing, Sub, Twin = user_classes()
    used = set()            # every id given so far
    model = {}              # id -> object that must be found under it
    objects = []
    scripter = Scripter(m, m.pick(["gsp", "backend"]))
    makers = [lambda: Thing(), lambda: Sub(a=1), lambda: T.Pixel(), lambda: T.X() + T.Y(),
              lambda: (2 * T.Inch()).copy(), lambda: T.Colormap("gray")(T.Out("screen[positions].x")),
              lambda: gsp.core.Buffer(1, np.dtype(np.uint8), bytes(1)),
              lambda: backend.core.Buffer(1, np.dtype(np.uint8), bytes(1)),
              lambda: np.zeros(m.integer(1, 4)).view(glm.ndarray.tracked),
              scripter.step, scripter.step, scripter.step]

    def verify(what):
        for oid, obj in model.items():
            m.check(Object.objects.get(oid) is obj, f"{what}: object {oid} is not found under its id")
            m.eq(int(obj.id), oid, f"{what}: id of a registered object")
        extra = [k for k in Object.objects if k not in model]
        m.check(not extra, f"{what}: registry holds unexpected ids {extra[:5]}")

    with Watch() as watch:
        for _ in range(m.integer(10, 40)):
            kind = m.integer(0, 9)
            if kind <= 5:
                del watch.made[:]
                m.pick(makers)()
                for obj, oid in watch.made:
                    m.check(oid not in used, f"id {oid} was given twice")
                    used.add(oid)
                    objects.append(obj)
                    if Object.record:
                        model[oid] = obj
                m.count("created")
                verify(f"creation of {[type(o).__name__ for o, _ in watch.made]} with registration "
                       f"{'on' if Object.record else 'off'}")
                m.seen("create", tuple(type(o).__name__ for o, _ in watch.made), Object.record)
            elif kind == 6:
                Object.record = m.chance(0.7)
                verify("registration switched")
            elif kind == 7 and objects:
                obj = m.pick(objects)
                old = int(obj.id)
                top = max(used)
                new = m.pick([top + 1, top + m.integer(2, 500), 10 ** 4 + top])
                free = [i for i in range(max(1, top - 300), top) if i not in used or i not in model]
                if free and m.chance(0.3):
                    new = m.pick(free[-50:])
                    if any(int(o.id) == new for o in objects):
                        continue
                registered = model.get(old) is obj
                before = {k: id(v) for k, v in vars(obj).items() if k != "_id"}
                others = [(o, int(o.id)) for o in objects if o is not obj]
                if m.chance(0.2):
                    new = old
                obj.id = new if m.chance() else gsp.object.OID(new)
                used.add(new)
                if registered:
                    del model[old]
                    model[new] = obj
                m.event("id", old, "->", new, registered)
                m.seen("id", registered, new > top, new == old)
                m.eq(int(obj.id), new, "id after it was changed")
                m.check({k: id(v) for k, v in vars(obj).items() if k != "_id"} == before,
                        "changing an id changed another attribute")
                m.check(all(int(o.id) == i for o, i in others), "changing an id changed another object's")
                if registered and new != old:
                    m.check(old not in Object.objects, f"the old id {old} still resolves")
                verify(f"id changed from {old} to {new}")
            elif kind == 8 and objects:
                obj = m.pick(objects)
                drop = next(i for i, o in enumerate(objects) if o is obj)
                del objects[drop]
                oid = int(obj.id)
                if model.get(oid) is obj:
                    del model[oid], Object.objects[oid]
                del obj
                del watch.made[:]
                gc.collect(0)
                verify("an object was dropped")
                m.seen("drop")
            elif kind == 9 and m.chance(0.3):
                Object.objects = {}
                model.clear()
                verify("emptied registry")
                m.seen("emptied")
    Object.record = True


def value(m, depth=0):
    kinds = [lambda: m.integer(-5, 5), lambda: m.real(-1, 1), lambda: m.pick(["", "a", "text"]), lambda: None,
             lambda: m.chance(), lambda: m.rng.bytes(4),
             lambda: m.rng.integers(0, 9, m.integer(0, 5)), lambda: m.rng.uniform(-1, 1, (m.integer(1, 3), 3)),
             lambda: np.float32(m.real(-1, 1)), lambda: gsp.core.Color(m.real(0, 1), 0, 0, 1),
             lambda: np.dtype(np.float32), lambda: gsp.core.Marker.star]
    if depth < 2:
        kinds += [lambda: [value(m, depth + 1) for _ in range(m.integer(0, 3))],
                  lambda: tuple(value(m, depth + 1) for _ in range(m.integer(0, 3))),
                  lambda: {str(i): value(m, depth + 1) for i in range(m.integer(0, 3))}]
    return m.pick(kinds)()


def clone(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(clone(v) for v in x)
    return x


def other_value(m, x):
    """A value that is not equal to x."""
    if isinstance(x, np.ndarray):
        if x.size == 0:
            return np.zeros(2)
        y = x.copy()
        y.flat[m.integer(0, y.size - 1)] += 1
        return m.pick([y, x[:-1].copy()])
    if isinstance(x, dict):
        if not x:
            return {"0": 1}
        y = clone(x)
        key = m.pick(y)
        if m.chance(0.3):
            del y[key]
        else:
            y[key] = other_value(m, y[key])
        return y
    if type(x) in (list, tuple):
        y = list(clone(x))
        if not y or m.chance(0.3):
            y.append(1)
        else:
            i = m.integer(0, len(y) - 1)
            y[i] = other_value(m, y[i])
        return type(x)(y)
    return "something else"


def pair(m):
    """Two equal objects, and a description."""
    T = gsp.transform
    Thing, Sub, Twin = user_classes()
    kind = m.integer(0, 6)
    if kind <= 2:
        attributes = {f"a{i}": value(m) for i in range(m.integer(0, 4))}
        if m.chance(0.15):
            attributes.update({f"more{i}": m.integer(0, 9) for i in range(m.integer(5, 40))})
        if m.chance(0.4):
            inner = {f"b{i}": value(m) for i in range(m.integer(0, 2))}
            a = Thing(inner=Sub(**clone(inner)), **clone(attributes))
            b = Thing(inner=Sub(**clone(inner)), **clone(attributes))
        else:
            a, b = Thing(**clone(attributes)), Thing(**clone(attributes))
        if m.chance(0.2):
            names = list(vars(b))
            state = {n: vars(b)[n] for n in reversed(names)}
            vars(b).clear()
            vars(b).update(state)
        return a, b, (Thing, Sub, Twin)
    if kind == 3:
        make = m.pick([T.Pixel, T.Inch, T.X, lambda: T.Colormap("gray", 0.0, 1.0), lambda: T.Out("sizes"),
                       lambda: T.Pixel() + T.Inch(), lambda: 2 * T.Pixel(), lambda: T.X() / 3])
    elif kind == 4:
        n = m.integer(1, 5)
        data = m.rng.bytes(4 * n)
        package = m.pick([gsp, backend])
        make = lambda: package.core.Buffer(n, np.dtype(np.float32), data)
    elif kind == 5:
        array = m.rng.uniform(-1, 1, (3, 3)).astype(np.float32)
        colors = m.rng.uniform(0, 1, (3, 4))
        make = m.pick([lambda: gsp.visual.Pixels(array.copy(), colors.copy()),
                       lambda: gsp.visual.Points(array.copy(), 3.0, colors.copy(), gsp.core.Color(1, 0, 0, 1), 1.0)])
        a, b = make(), make()
        for v in (a, b):
            # Room for outputs is not initialised
            for variables in [d for d in vars(v).values() if isinstance(d, dict)]:
                for out in variables.values():
                    if isinstance(out, np.ndarray) and not any(np.array_equal(out, given) for given in (array, colors)):
                        out[...] = 0
        return a, b, None
    else:
        make = lambda: gsp.core.Canvas(100, 100, 100.0)
    return make(), make(), None


def same(m, a, b, expected, what):
    got = a == b
    m.check(isinstance(got, (bool, np.bool_)), f"{what}: comparison gives {got!r}")
    m.eq(bool(got), expected, f"{what}: a == b")
    m.eq(bool(b == a), expected, f"{what}: b == a")
    m.eq(bool(a != b), not expected, f"{what}: a != b")


def equality(m):
    a, b, classes = pair(m)
    what = f"{type(a).__name__} {sorted(vars(a))}"
    m.event(what)
    m.check(int(a.id) != int(b.id), "two objects with one id")
    same(m, a, b, True, f"{what}, equal attributes")
    same(m, a, a, True, f"{what}, itself")
    for thing in (None, 3, "a", int(a.id), a.id, [a], (a.id,)):
        m.check(not a == thing, f"{what}: equal to {thing!r}")
    b.id = 10 ** 7 + int(b.id)
    same(m, a, b, True, f"{what}, other id")
    names = [n for n in vars(b) if n != "_id"]
    if names:
        name = m.pick([m.pick(names), names[-1]])
        old = getattr(b, name)
        if isinstance(old, Object):
            changed = type(old).__new__(type(old))
            vars(changed).update(vars(old))
            changed.extra = 1
        else:
            changed = other_value(m, old)
        setattr(b, name, changed)
        same(m, a, b, False, f"{what}, {name} differs")
        setattr(b, name, old)
        same(m, a, b, True, f"{what}, {name} restored")
        delattr(b, name)
        same(m, a, b, False, f"{what}, {name} missing")
        setattr(b, name, old)
    b.another = None
    same(m, a, b, False, f"{what}, additional attribute")
    del b.another
    if classes:
        Thing, Sub, Twin = classes
        Twin.__name__ = m.pick(["Twin", Thing.__name__])
        Twin.__qualname__ = m.pick([Twin.__qualname__, Thing.__qualname__])
        for cls in (Sub, Twin):
            other = cls(**{n: clone(getattr(a, n)) for n in vars(a) if n != "_id"})
            same(m, a, other, False, f"{what}, other type with the same attributes")
    m.seen(type(a).__name__, tuple(type(v).__name__ for v in vars(a).values()))


def different_kinds(m):
    """Objects of different types, or made from different values, are different."""
    T = gsp.transform
    things = [T.Pixel(), T.Inch(), T.X(), T.R(), T.Colormap("gray"), T.Colormap("magma"),
              T.Colormap("gray", 0.0, 1.0), T.Colormap("gray", 0.0, 2.0), T.Out("a"), T.Out("b"), T.Pixel() + 1,
              T.Pixel() + 2, T.Pixel() * 2.0, T.Pixel() - 1, T.Inch() + 1,
              gsp.core.Buffer(1, np.dtype(np.uint8), bytes([1])), gsp.core.Buffer(1, np.dtype(np.uint8), bytes([2])),
              backend.core.Buffer(1, np.dtype(np.uint8), bytes([1])), gsp.core.Buffer(2, np.dtype(np.uint8), bytes(2)),
              gsp.core.Buffer(1, np.dtype(np.int8), bytes([1]))]
    for i, a in enumerate(things):
        for j, b in enumerate(things):
            m.eq(bool(a == b), i == j, f"{a!r} == {b!r}")
    m.seen("kinds", len(things))


FIXED = [different_kinds]
RANDOM = [(histories, 60, 900), (equality, 150, 2500)]
