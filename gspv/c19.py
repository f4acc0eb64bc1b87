"""C19 — the dirty region covers every modified byte."""
import numpy as np

from . import arrays, c20
from .env import glm

ID = "C19"
RULE = ("random histories of writes (items, slices, strides, reversed, fields, components, masks, in place), reads and "
        "clears through arrays of every kind and nested views, without tracker; dirty is compared with the byte "
        "difference to a snapshot, and for a single write of items or slices after a clear with the exact bytes the "
        "same write touches in a plain array; non-trivial = distinct (array kind, view path, write) combinations")
MIN = 5000
QUICK = 20


def region(dirty):
    return (0, 0) if dirty is None else tuple(dirty)


def bytes_of(Z):
    return np.frombuffer(np.ascontiguousarray(Z).tobytes(), np.uint8)


def touched(plain, steps, write_key):
    """Bytes of the array written by assigning items reached by steps and key: (start, stop) or None."""
    blank = np.zeros_like(plain)
    target = arrays.walk(blank, steps)
    item = np.frombuffer(b"\xff" * target.dtype.itemsize, target.dtype)[0]
    try:
        target[write_key] = item
    except TypeError:
        target[write_key] = item.item()
    changed = np.flatnonzero(np.frombuffer(blank.tobytes(), np.uint8))
    return (int(changed[0]), int(changed[-1]) + 1) if len(changed) else None


def reads(m, Z, view):
    """Reading in many ways."""
    for action in (lambda: view.sum(), lambda: view.tolist(), lambda: view + 1, lambda: view[...], lambda: view.copy(),
                   lambda: view[0], lambda: view.T, lambda: list(view), lambda: np.array(view), lambda: repr(view),
                   lambda: view == view, lambda: Z.tobytes(), lambda: view.astype(np.float64), lambda: view.max(),
                   lambda: view.reshape(-1)):
        if m.chance(0.4):
            try:
                action()
            except Exception:
                pass


def history(m):
    glm.ndarray.tracked.__tracker_class__ = None
    plain, build, kind = arrays.make(m)
    Z = build()
    m.event(kind, plain.shape, str(plain.dtype))
    contiguous = kind != "strided"
    nbytes = Z.nbytes
    view = arrays.walk(Z, arrays.path(m, plain)[0])
    m.pick([Z, view if np.may_share_memory(view, Z) else Z]).clear()
    m.eq(region(Z.dirty), (0, 0), "dirty region after a clear")
    snapshot = bytes_of(Z).copy()
    writes = 0
    older = []
    for _ in range(m.integer(3, 14)):
        if older and m.chance(0.4):
            steps, flat, view = m.pick(older)
        else:
            steps, flat = arrays.path(m, plain)
            view = arrays.walk(Z, steps)
            if not isinstance(flat, np.ndarray) or not np.may_share_memory(view, Z):
                continue
            older.append((steps, flat, view))
        label = f"{kind} {plain.shape} {plain.dtype}"
        if m.chance(0.15):
            m.pick([Z, view]).clear()
            m.check(region(Z.dirty)[0] == region(Z.dirty)[1], f"{label}: dirty region right after a clear is {Z.dirty}")
            m.check(region(view.dirty)[0] == region(view.dirty)[1], f"{label}: dirty region of a view after a clear")
            snapshot = bytes_of(Z).copy()
            writes = 0
            continue
        if m.chance(0.3):
            before = region(Z.dirty)
            reads(m, Z, view)
            m.eq(region(Z.dirty), before, f"{label}: dirty region after reads")
            continue
        what, write = arrays.write(m, flat, basic=m.chance(0.7))
        try:
            write(flat)
        except Exception:
            continue
        try:
            write(view)
        except NotImplementedError:
            plain[...] = np.asarray(Z)
            continue
        writes += 1
        label += f": {what} through {[s[0] for s in steps]}"
        start, stop = region(Z.dirty)
        m.eq(region(view.dirty), (start, stop), f"{label}: dirty region of the view and of the array")
        m.check(0 <= start <= stop <= nbytes, f"{label}: dirty region {start, stop} of {nbytes} bytes")
        changed = np.flatnonzero(bytes_of(Z) != snapshot)
        if len(changed):
            m.check(start <= changed[0] and changed[-1] < stop,
                    f"{label}: dirty region {start, stop} does not cover bytes {changed[0]} to {changed[-1]}")
        m.seen(kind, [s[0][0] for s in steps], what[0], writes == 1)
        key = what[1] if what[0] in ("set", "same", "signed zeros", "augmented") else Ellipsis
        if writes == 1 and contiguous and not is_fancy(key):
            want = touched(plain, steps, key)
            if want is None:
                m.check(start == stop, f"{label}: dirty region {start, stop} after writing nothing")
            else:
                m.eq((start, stop), want, f"{label}: dirty region of a single write")
            m.count("exact")


def is_fancy(key):
    return isinstance(key, (np.ndarray, list))


def components(m):
    """Writes through component names."""
    glm.ndarray.tracked.__tracker_class__ = None
    k = m.pick([2, 3, 4])
    n = m.integer(2, 6)
    names = m.pick({2: ["xy", "ra"], 3: ["xyz", "rgb"], 4: ["xyzw", "rgba"]}[k])
    Z = getattr(glm, f"vec{k}")(n)
    Z[...] = m.rng.uniform(0, 1, (n, k))
    for _ in range(5):
        Z.clear()
        name = "".join(m.rng.permutation(list(names))[:m.integer(1, k)])
        index = [names.index(c) for c in name]
        a = m.integer(0, n - 1) if m.chance() else 0
        target = Z[a:]
        setattr(target, name, round(m.real(2, 9), 3))
        addresses = [(row * k + i) * 4 for row in range(a, n) for i in index]
        m.eq(region(Z.dirty), (min(addresses), max(addresses) + 4), f"dirty region of {name} from {a}")
        before = Z.dirty
        getattr(Z, name)
        m.eq(Z.dirty, before, "dirty region after reading components")
        m.seen("component", name, a > 0)
    m.event("components", names, n)


def assignments(m):
    """Component names assigned with values of every form: exactly the components named, in one region."""
    glm.ndarray.tracked.__tracker_class__ = None
    k = m.pick([2, 3, 4])
    n = m.integer(1, 7)
    names = m.pick(c20.NAMES[k])
    Z = getattr(glm, f"vec{k}")(n)
    Z[...] = m.rng.integers(1, 99, (n, k))
    plain = np.array(Z)
    for _ in range(8):
        a = m.integer(0, n - 1) if m.chance(0.3) else 0
        target, flat = Z[a:], plain[a:]
        found = c20.assignment(m, target, flat, k, names)
        if found is None:
            continue
        name, form, given, apply = found
        Z.clear()
        setattr(target, name, given)
        apply()
        m.event(form, name, a, n)
        index = [names.index(c) for c in name]
        addresses = [(row * k + i) * 4 for row in range(a, n) for i in index]
        m.eq(region(Z.dirty), (min(addresses), max(addresses) + 4), f"dirty region of {name} from {a} ({form})")
        m.seen("assignment", name, form, a > 0)


RANDOM = [(history, 300, 20000), (components, 60, 1500), (assignments, 80, 4000)]
