"""C22 — vector and matrix constructors and conversions keep shape, type and convention."""
import numpy as np

from .env import glm

ID = "C22"
RULE = ("all vector and matrix constructors with and without a count, and conversions and views of random inputs (lists, "
        "flat and two-dimensional arrays of 2 to 4 components, all numeric types, strided, transposed, tracked and "
        "read-only ones, requested types), against the stated convention; non-trivial = distinct (function, input "
        "form, type) combinations")
MIN = 3000
QUICK = 20
TYPES = {"b": np.uint8, "i": np.int32, "u": np.uint32, "h": np.float16, "": np.float32, "d": np.float64}


def constructors(m):
    glm.ndarray.tracked.__tracker_class__ = None
    for letter, dtype in TYPES.items():
        for k in (2, 3, 4):
            for family, tail in (("vec", (k,)), ("mat", (k, k))):
                name = f"{letter}{family}{k}"
                make = getattr(glm, name)
                n = m.integer(1, 9)
                for count, shape in ((n, (n,) + tail), (None, tail), (1, (1,) + tail), (0, (0,) + tail)):
                    Z = make() if count is None and m.chance() else make(count)
                    m.eq(Z.shape, shape, f"shape of {name}({count})")
                    m.eq(Z.dtype, np.dtype(dtype), f"type of {name}({count})")
                    v = m.rng.integers(0, 99, shape)
                    Z[...] = v
                    m.eq(np.asarray(Z), v.astype(dtype), f"values assigned to {name}({count})")
                    m.check(isinstance(Z, glm.ndarray.tracked), f"{name}({count}) is tracked")
                    m.seen("make", name, count is None)
                a, b = make(n), make(n)
                a[...], b[...] = 1, 2
                m.check((np.asarray(a) == 1).all() and (np.asarray(b) == 2).all(), f"two {name} are independent")
    for name, dtype in (("byte", np.int8), ("ubyte", np.uint8), ("float", np.float32)):
        n = m.integer(2, 9)
        Z = getattr(glm, name)(n)
        m.eq((len(Z), Z.size, Z.dtype), (n, n, np.dtype(dtype)), f"{name}({n})")
        m.eq(getattr(glm, name)().size, 1, f"{name}()")
        m.eq(getattr(glm, name)(0).size, 0, f"{name}(0)")
    m.event("constructors")


def source(m, width, flat):
    """Input of a conversion, its values, and its form."""
    n = m.integer(1, 7)
    dtype = np.dtype(m.pick([np.float32, np.float64, np.float32, np.float16, np.int32, np.int64, np.uint8, np.int16]))
    shape = (n * width,) if flat else (n, width)
    values = m.rng.integers(1, 9, shape).astype(dtype)
    if dtype.kind == "f" and dtype.itemsize > 2:
        values = values + m.rng.uniform(0, 1, shape).astype(dtype)
    form = m.pick(["array", "list", "strided", "reversed", "transposed", "tracked", "read only", "vector", "tuple"])
    if form in ("list", "tuple"):
        values = values.astype(np.float64 if dtype.kind == "f" else np.int64)
        return (values.tolist() if form == "list" else tuple(map(tuple, values.tolist())) if not flat else
                tuple(values.tolist())), values.copy(), form
    if width == 4 and dtype.kind == "f" and dtype.itemsize > 2 and not flat and m.chance(0.4):
        values[m.integer(0, n - 1), 3] = m.pick([1e-4, 2.5e-5, -1e-3, -0.5, 1e5])      # far away, or behind the eye
    if form == "strided":
        return np.repeat(values, 2, axis=0)[::2], values.copy(), form
    if form == "reversed":
        return values[::-1], values[::-1].copy(), form
    if form == "transposed" and not flat:
        return np.asfortranarray(values), values.copy(), form
    if form == "tracked":
        return values.view(glm.ndarray.tracked), values.copy(), form
    if form == "vector" and not flat:
        Z = getattr(glm.ndarray, f"vec{width}")(n, values.dtype)
        Z[...] = values
        return Z, values.copy(), form
    if form == "read only":
        values.flags.writeable = False
        return values, values.copy(), form
    return values, values.copy(), "array"


def converted(values, k):
    """values (n, width) as k components, in double precision."""
    v = values.astype(np.float64)
    n, width = v.shape
    if width == 4 and k < 4:
        return v[:, :k] / v[:, 3:]
    out = np.zeros((n, k))
    if k == 4:
        out[:, 3] = 1
    out[:, :min(k, width)] = v[:, :k]
    return out


def conversions(m):
    glm.ndarray.tracked.__tracker_class__ = None
    for _ in range(4):
        k = m.pick([2, 3, 4])
        flat = m.chance(0.3)
        width = k if flat else m.pick([2, 3, 4])
        given, values, form = source(m, width, flat)
        requested = m.pick([None, None, np.float32, np.float64, np.int32])
        before = np.array(given)
        convert = getattr(glm, f"to_vec{k}")
        got = convert(given, requested) if requested is not None else convert(given)
        dtype = np.dtype(requested or values.dtype)
        m.eq(got.dtype, dtype, f"type of to_vec{k} of {form} {values.dtype}")
        m.check(isinstance(got, getattr(glm.ndarray, f"vec{k}")), f"class of to_vec{k}")
        want = values.reshape(-1, k).astype(np.float64) if flat else converted(values, k)
        label = f"to_vec{k} of {form} {values.shape} {values.dtype} as {requested}"
        m.eq(got.shape, want.shape, f"{label}: shape")
        if dtype.kind in "iu":
            exact = np.trunc(want)
            slack = 1e-5 * np.abs(want)
            near = np.abs(want - np.round(want)) < 1e-3 + slack
            m.check(np.all((np.asarray(got) == exact) | near & (np.abs(np.asarray(got) - want) < 1.01 + slack)),
                    f"{label}: {np.asarray(got).tolist()}, expected {exact.tolist()}")
        else:
            tol = 5e-3 if np.float16 in (dtype, values.dtype) else 1e-5
            m.close(np.asarray(got), want, label, tol)
            if not (width == 4 and k < 4):
                m.check(np.array_equal(np.asarray(got), want.astype(dtype)), f"{label}: components are not kept exactly")
        # the input is neither modified nor aliased
        m.eq(np.array(given), before, f"{label}: input afterwards")
        got[...] = 77
        m.eq(np.array(given), before, f"{label}: input after the result was modified")
        m.event(label)
        m.seen("to", k, width, form, str(values.dtype), str(requested))


def views(m):
    glm.ndarray.tracked.__tracker_class__ = None
    for _ in range(3):
        k = m.pick([2, 3, 4])
        flat = m.chance()
        given, values, form = source(m, k, flat)
        as_vec = getattr(glm, f"as_vec{k}")
        requested = m.pick([None, None, np.float32, np.float64])
        got = as_vec(given) if requested is None else as_vec(given, requested)
        m.eq(got.dtype, np.dtype(requested or values.dtype), f"type of as_vec{k}")
        m.check(isinstance(got, getattr(glm.ndarray, f"vec{k}")), f"class of as_vec{k}")
        m.close(np.asarray(got), values.reshape(-1, k), f"as_vec{k} of {form}", 1e-3)
        if requested is None and (form in ("array", "tracked", "vector") or
                                  not flat and form in ("strided", "reversed", "transposed")):
            m.check(np.may_share_memory(got, given), f"as_vec{k} of {form} shares memory")
            got[0, 0] = 55
            m.eq(float(np.asarray(given).ravel()[0]), 55.0, f"as_vec{k} of {form}: input after a write")
        elif requested is not None and not isinstance(given, (list, tuple)):
            before = np.array(given)
            got[...] = 66
            m.eq(np.array(given), before, f"as_vec{k} with a type: input after a write")
        m.seen("as", k, form, flat, str(requested))
    m.event("views")


def refused(m):
    """What cannot be grouped is refused."""
    glm.ndarray.tracked.__tracker_class__ = None
    k = m.pick([2, 3, 4])
    size = m.pick([s for s in range(1, 14) if s % k])
    m.raises((TypeError, ValueError), lambda: getattr(glm, f"to_vec{k}")(np.ones(size)), f"to_vec{k} of {size} values")
    m.raises((TypeError, ValueError), lambda: getattr(glm, f"as_vec{k}")(np.ones(size)), f"as_vec{k} of {size} values")
    width = m.pick([5, 6])
    m.raises((TypeError, ValueError), lambda: getattr(glm, f"to_vec{k}")(np.ones((3, width))),
             f"to_vec{k} of {width} components")
    m.seen("refused", k, size, width)


RANDOM = [(constructors, 12, 60), (conversions, 200, 8000), (views, 80, 2500), (refused, 20, 200)]
