"""Writes into arrays as data: the same write can be made in a tracked array and in a plain one."""
import operator

import numpy as np

from .env import glm

DTYPES = [np.float32, np.float64, np.int32, np.uint8, np.int16, np.uint16, np.int64]


def key(m, shape, basic=True):
    """A random index for an array of this shape (basic indexing unless told otherwise)."""
    if not shape:
        return m.pick([(), Ellipsis])
    if not basic and m.chance(0.5):
        if m.chance():
            return m.rng.random(shape[0]) < 0.5
        return m.rng.integers(-shape[0], shape[0], m.integer(1, 3)) if shape[0] else slice(None)
    parts = []
    for size in shape[:m.integer(1, len(shape))]:
        kind = m.pick(["int", "slice", "slice", "step", "negative", "all", "end"])
        if kind == "int" and size:
            parts.append(m.integer(-size, size - 1))
        elif kind == "slice":
            a = m.integer(0, size)
            parts.append(slice(a, m.integer(a, size + 1)))
        elif kind == "step":
            parts.append(slice(m.pick([None, 0, 1]), None, m.integer(1, 3)))
        elif kind == "negative":
            parts.append(slice(m.pick([None, size - 1, -1]), m.pick([None, 0]), -m.integer(1, 2)))
        elif kind == "end":
            parts.append(slice(-m.integer(1, size) if size else None, None))
        else:
            parts.append(slice(None))
    if len(parts) < len(shape) and m.chance(0.2):
        parts.append(Ellipsis)
    elif m.chance(0.1):
        parts = [Ellipsis, m.pick([-1, slice(0, 1), slice(None, None, 2)]) if shape[-1] else slice(None)]
    if m.chance(0.1):
        parts.insert(m.integer(0, len(parts)), None)
    if len(parts) == 1 and m.chance(0.7):
        return parts[0]
    return tuple(parts)


def step(m, array):
    """A way to a view of the array: (what, function)."""
    kind = m.pick(["index", "index", "index", "transpose", "reshape", "swap", "view"])
    if kind == "index":
        k = key(m, array.shape)
        return ("index", k), lambda a: a[k]
    if kind == "transpose":
        return ("T",), lambda a: a.T
    if kind == "swap" and array.ndim > 1:
        return ("swapaxes",), lambda a: a.swapaxes(0, -1)
    if kind == "reshape" and array.size:
        shape = m.pick([(-1,), (array.size, 1), (1, array.size), array.shape[::-1]])
        return ("reshape", shape), lambda a: a.reshape(shape)
    return ("view",), lambda a: a.view()


def path(m, array):
    """Random nested views (never a copy of the data): list of (what, function), and the plain view reached."""
    steps, plain = [], array
    for _ in range(m.pick([0, 0, 1, 1, 2, 3])):
        what, function = step(m, plain)
        reached = function(plain)
        if not isinstance(reached, np.ndarray) or not np.may_share_memory(reached, array) and reached.size:
            continue
        if plain.dtype.names and isinstance(reached, np.void):
            continue
        steps.append((what, function))
        plain = reached
    if plain.dtype.names and m.chance(0.6):
        name = m.pick(plain.dtype.names)
        steps.append((("field", name), lambda a: a[name]))
        plain = plain[name]
    return steps, plain


def walk(array, steps):
    for what, function in steps:
        array = function(array)
    return array


def value(m, target):
    """Something to assign to target (an array or an item)."""
    target = np.asarray(target)
    if target.dtype.names:
        raw = m.rng.integers(1, 100, target.dtype.itemsize * max(1, target.size), np.uint8)
        items = np.frombuffer(raw.tobytes(), target.dtype)[:max(1, target.size)]
        return items.reshape(target.shape) if target.size else items[0]
    kind = m.pick(["scalar", "array", "row", "zero", "list"])
    high = 100 if target.dtype.kind in "iu" else 1000
    number = lambda shape: m.rng.integers(1, high, shape).astype(target.dtype)
    if kind == "scalar":
        return m.integer(1, 99)
    if kind == "zero":
        return m.pick([0, -0.0])
    if kind == "row" and target.ndim:
        return number(target.shape[-1])
    array = number(target.shape)
    return array.tolist() if kind == "list" and target.ndim < 3 else array


INPLACE = {"f": ["iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow"],
           "i": ["iadd", "isub", "imul", "ifloordiv", "imod", "iand", "ior", "ixor", "ilshift", "irshift", "ipow"]}


def write(m, plain, basic=True):
    """A random write into (a view like) plain: (what, function)."""
    if m.chance(0.3) and not plain.dtype.names and plain.ndim:
        name = m.pick(INPLACE["f" if plain.dtype.kind == "f" else "i"])
        operand = m.pick([1, 2, 3]) if m.chance(0.7) else np.full(plain.shape, m.integer(1, 2), plain.dtype)
        function = getattr(operator, name)

        def apply(a):
            function(a, operand)
        return (name,), apply
    if m.chance(0.15) and not plain.dtype.names and plain.ndim:
        k = key(m, plain.shape)

        def apply(a):
            a[k] += 1
        return ("augmented", k), apply
    k = key(m, plain.shape, basic)
    if m.chance(0.12):
        # the values already there are written, too
        def apply(a):
            a[k] = np.array(a[k])
        return ("same", k), apply
    if m.chance(0.06) and plain.dtype.kind == "f":
        # values that compare equal but are not the same
        def apply(a):
            a[k] = 0
            a[k] = np.full(np.shape(a[k]), -0.0)
        return ("signed zeros", k), apply
    v = value(m, plain[k])
    if plain.dtype.names and isinstance(plain[k], np.void):
        v = tuple(np.asarray(v).reshape(-1)[0])

    def apply(a):
        a[k] = v
    return ("set", k), apply


def make(m, structured=True):
    """(plain array, function making the tracked array alike, kind)."""
    kind = m.pick(["tracked", "view", "vec2", "vec3", "vec4", "scalar", "mat", "strided", "single"] +
                  (["fields"] if structured else []))
    dtype = np.dtype(m.pick(DTYPES))
    n = m.integer(1, 7)
    high = 100
    if kind == "fields":
        d = np.dtype([("a", m.pick(DTYPES)), ("b", m.pick(DTYPES), m.integer(2, 4)), ("c", np.uint8)])
        plain = np.frombuffer(m.rng.integers(0, high, n * d.itemsize, np.uint8).tobytes(), d).copy()
        return plain, lambda: plain.copy().view(glm.ndarray.tracked), kind
    if kind in ("vec2", "vec3", "vec4"):
        plain = m.rng.integers(0, high, (n, int(kind[-1]))).astype(dtype)

        def build():
            Z = getattr(glm.ndarray, kind)(n, dtype)
            Z[...] = plain
            return Z
        return plain, build, kind
    if kind == "single":
        k = m.pick([2, 3, 4])
        plain = m.rng.integers(0, high, k).astype(dtype)

        def build():
            Z = getattr(glm.ndarray, f"vec{k}")(None, dtype)
            Z[...] = plain
            return Z
        return plain, build, kind
    if kind == "scalar":
        plain = m.rng.integers(0, high, n).astype(dtype)

        def build():
            Z = glm.ndarray.scalar(n, dtype)
            Z[...] = plain
            return Z
        return plain, build, kind
    if kind == "mat":
        k = m.pick([2, 3, 4])
        plain = m.rng.integers(0, high, (n, k, k)).astype(dtype)

        def build():
            Z = getattr(glm.ndarray, f"mat{k}")(n, dtype)
            Z[...] = plain
            return Z
        return plain, build, kind
    shape = m.pick([(n,), (n, m.integer(1, 4)), (n, 2, m.integer(1, 3)), (2 * n,)])
    plain = m.rng.integers(0, high, shape).astype(dtype)
    if kind == "strided":
        return plain, lambda: np.repeat(plain, 2, axis=0)[::2].view(glm.ndarray.tracked), kind
    if kind == "tracked":
        def build():
            Z = glm.ndarray.tracked(shape, dtype)
            Z[...] = plain
            return Z
        return plain, build, kind
    return plain, lambda: plain.copy().view(glm.ndarray.tracked), kind
