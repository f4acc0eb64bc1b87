"""C18 — a mirror fed by the notifications of a tracked array equals the array."""
import numpy as np

from . import arrays, c20
from .env import Object, backend, glm, gsp

ID = "C18"
RULE = ("random histories of item, slice, strided, reversed, component, field, masked and in-place writes (and reads) "
        "through arrays of every kind and dtype and through nested, older and newer views, under an observing tracker "
        "and under the backend's own tracker; the mirror is compared byte for byte after every write and every "
        "notification is checked on arrival; non-trivial = distinct (array kind, view path, write) combinations")
MIN = 5000
QUICK = 20


class Observer:
    """Keeps a mirror, fed by notifications only."""
    made = []

    def __init__(self, array):
        self.array = array
        self.mirror = bytearray(np.ascontiguousarray(array).tobytes())
        self.notices = 0
        self.wrong = None
        Observer.made.append(self)

    def set_data(self, offset, data):
        data = bytes(data)
        self.notices += 1
        current = np.ascontiguousarray(self.array).tobytes()
        if not 0 <= offset <= offset + len(data) <= len(current):
            self.wrong = f"notification of {len(data)} bytes at {offset} in an array of {len(current)} bytes"
        elif current[offset:offset + len(data)] != data:
            self.wrong = f"notification of {len(data)} bytes at {offset} that are not those of the array"
        self.mirror[offset:offset + len(data)] = data


def observed(Z):
    """Observers of Z's own memory (0-sized ones have none)."""
    found = [o for o in Observer.made if np.may_share_memory(o.array, Z) and o.array.nbytes == Z.nbytes]
    return found[-1] if found else None


def history(m):
    Observer.made = []
    glm.ndarray.tracked.__tracker_class__ = Observer
    plain, build, kind = arrays.make(m)
    Z = build()
    observer = observed(Z)
    m.check(observer is not None, f"a tracker is created with a {kind} array")
    m.event(kind, plain.shape, str(plain.dtype))
    m.check(bytes(observer.mirror) == np.ascontiguousarray(Z).tobytes(), f"mirror of a new {kind} array")
    older = [([], plain, Z)]
    for _ in range(m.integer(3, 14)):
        if older and m.chance(0.4):
            steps, flat, view = m.pick(older)
        else:
            steps, flat = arrays.path(m, plain)
            view = arrays.walk(Z, steps)
            older.append((steps, flat, view))
        if not isinstance(flat, np.ndarray) or not np.may_share_memory(view, Z):
            continue                        # not a view
        what, write = arrays.write(m, flat, basic=False)
        names = [s[0][0] for s in steps]
        label = f"{kind} {plain.shape} {plain.dtype}: {what} through {[s[0] for s in steps]}"
        try:
            write(flat)
        except Exception:
            continue                        # not a legal write for numpy either
        try:
            write(view)
        except NotImplementedError:
            # what cannot be tracked is refused and must leave the array alone
            plain[...] = np.asarray(Z)
            m.count("refused")
            continue
        # plain and tracked follow the same history
        m.check(np.ascontiguousarray(Z).tobytes() == np.ascontiguousarray(plain).tobytes(),
                f"{label}: the array differs from a plain array written the same way")
        m.check(observer.wrong is None, f"{label}: {observer.wrong}")
        m.check(bytes(observer.mirror) == np.ascontiguousarray(Z).tobytes(), f"{label}: mirror differs from the array")
        if m.chance(0.3):
            before = observer.notices
            Z.sum() if not Z.dtype.names else Z.tobytes()
            view[...] if view.ndim else view[()]
            computed = Z + 1 if not Z.dtype.names else Z.copy()
            if computed.size and computed.ndim and not computed.dtype.names:
                computed[...] = 7           # not the array
            m.eq(observer.notices, before, f"{label}: notifications after reads and writes to computed arrays")
            m.check(bytes(observer.mirror) == np.ascontiguousarray(Z).tobytes(), f"{label}: mirror after reads")
        m.seen(kind, names, what[0])


def components(m):
    """Writes by component names, also augmented ones."""
    Observer.made = []
    glm.ndarray.tracked.__tracker_class__ = Observer
    k = m.pick([2, 3, 4])
    n = m.integer(2, 6)
    names = m.pick({2: ["xy", "ra"], 3: ["xyz", "rgb"], 4: ["xyzw", "rgba"]}[k])
    Z = getattr(glm, f"vec{k}")(n)
    Z[...] = m.rng.uniform(0, 1, (n, k))
    plain = np.array(Z)
    observer = observed(Z)
    for _ in range(6):
        name = "".join(m.rng.permutation(list(names))[:m.integer(1, k)])
        index = [names.index(c) for c in name]
        form = m.pick(["scalar", "augmented", "rows", "view"])
        target = Z
        flat = plain
        if form == "view":
            a = m.integer(0, n - 1)
            target, flat = Z[a:], plain[a:]
        v = round(m.real(1, 9), 2)
        if form == "augmented":
            setattr(target, name, getattr(target, name) + v) if len(name) > 1 and len(name) != n else \
                setattr(target, name, v)
            if len(name) > 1 and len(name) != n:
                flat[:, index] += np.float32(v)
            else:
                flat[:, index] = v
        elif form == "rows" and len(name) > 1 and len(name) != n:
            rows = m.rng.uniform(0, 1, (n, len(name))).astype(np.float32)
            setattr(target, name, rows)
            flat[:, index] = rows
        else:
            setattr(target, name, v)
            flat[:, index] = v
        m.event(form, name)
        m.close(np.asarray(Z), plain, f"{form} of {name}", 1e-6)
        m.check(observer.wrong is None, f"{form} of {name}: {observer.wrong}")
        m.check(bytes(observer.mirror) == np.asarray(Z).tobytes(), f"{form} of {name}: mirror differs")
        m.seen("component", name, form)


def assignments(m):
    """Assignments by component names, with values of every form, through the array or a view of it."""
    Observer.made = []
    glm.ndarray.tracked.__tracker_class__ = Observer
    k = m.pick([2, 3, 4])
    n = m.integer(1, 7)
    names = m.pick(c20.NAMES[k])
    Z = getattr(glm, m.pick(["", "d", "i"]) + f"vec{k}")(n)
    Z[...] = m.rng.integers(1, 99, (n, k))
    plain = np.array(Z)
    observer = observed(Z)
    for _ in range(8):
        a = m.integer(0, n - 1) if m.chance(0.3) else 0
        back = m.pick([1, 1, -1])
        target, flat = Z[a:][::back], plain[a:][::back]
        found = c20.assignment(m, target, flat, k, names)
        if found is None:
            continue
        name, form, given, apply = found
        setattr(target, name, given)
        apply()
        m.event(form, name, a, n)
        label = f"{name} of {n} vectors from {a} by {back} ({form})"
        m.check(np.asarray(Z).tobytes() == plain.tobytes(), f"{label}: the array")
        m.check(observer.wrong is None, f"{label}: {observer.wrong}")
        m.check(bytes(observer.mirror) == np.asarray(Z).tobytes(), f"{label}: mirror differs")
        m.seen("assignment", name, form, a > 0, back)


def buffers(m):
    """The backend's tracker: the buffer accompanying a tracked array, and what was recorded for it."""
    queue = gsp.io.queue("active")
    plain, build, kind = arrays.make(m)
    if kind in ("strided", "single"):
        return                              # their memory is not that of the array they come from
    Z = build()
    buffer = gsp.io.convert(Z, "Buffer")
    m.event(kind, plain.shape, str(plain.dtype))
    for _ in range(m.integer(2, 8)):
        steps, flat = arrays.path(m, plain)
        view = arrays.walk(Z, steps)
        if not isinstance(flat, np.ndarray) or not np.may_share_memory(view, Z):
            continue                        # not a view
        what, write = arrays.write(m, flat, basic=False)
        try:
            write(flat)
        except Exception:
            continue
        try:
            write(view)
        except NotImplementedError:
            plain[...] = np.asarray(Z)
            continue
        label = f"{kind} {plain.shape} {plain.dtype}: {what} through {[s[0] for s in steps]}"
        m.check(np.asarray(Z).tobytes() == plain.tobytes(), f"{label}: the array")
        m.check(np.ascontiguousarray(np.asarray(buffer)).tobytes() == plain.tobytes(), f"{label}: the buffer differs")
        m.seen("buffer", kind, what[0], len(steps))
    # what was recorded gives the array, too
    mirror = bytearray(plain.nbytes)
    known = False
    for command in queue:
        if command.methodname == "set_data" and command.parameters["id"] == buffer.id:
            p = command.parameters
            data = p["data"]
            data = bytes(data() if callable(data) else data)
            offset = p["offset"]
            m.check(0 <= offset <= offset + len(data) <= plain.nbytes, "recorded offset inside the array")
            mirror[offset:offset + len(data)] = data
            known = True
    m.check(known and bytes(mirror) == plain.tobytes(), f"{kind}: recorded updates do not give the array")


def independence(m):
    """Several tracked arrays and their views: each write reaches its own mirror only."""
    Observer.made = []
    glm.ndarray.tracked.__tracker_class__ = Observer
    made = []
    for _ in range(m.integer(2, 4)):
        plain, build, kind = arrays.make(m, structured=False)
        Z = build()
        made.append((plain.copy(), Z, observed(Z)))
    for _ in range(m.integer(4, 10)):
        plain, Z, observer = m.pick(made)
        counts = [o.notices for _, _, o in made]
        steps, flat = arrays.path(m, plain)
        view = arrays.walk(Z, steps)
        if not isinstance(flat, np.ndarray) or not np.may_share_memory(view, Z):
            continue                        # not a view
        what, write = arrays.write(m, flat)
        try:
            write(flat)
        except Exception:
            continue
        write(view)
        for i, (p, z, o) in enumerate(made):
            m.check(bytes(o.mirror) == np.ascontiguousarray(z).tobytes() == p.tobytes(), f"array {i} after {what}")
            if z is not Z:
                m.eq(o.notices, counts[i], "notifications of another array")
            m.check(o.wrong is None, f"{o.wrong}")
        # an array computed from it, or a copy, is not it
        if m.chance(0.4):
            for derived in (Z.copy(), Z * 1, np.array(Z)):
                counts = [o.notices for _, _, o in made]
                derived[...] = 3
                m.eq([o.notices for _, _, o in made], counts, "notifications from a derived array")
        m.seen("many", what[0], len(steps))


RANDOM = [(history, 250, 10000), (components, 60, 1500), (assignments, 80, 4000), (buffers, 120, 4000), (independence, 60, 2000)]
