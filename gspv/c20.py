"""C20 — component swizzles read and write exactly the named components."""
import itertools

import numpy as np

from .env import glm

ID = "C20"
RULE = ("every selection, order and repetition of up to four component letters read on vectors of 2 to 4 components "
        "(arrays, single vectors, views, all element types), and random ones assigned in every value form, against "
        "explicit indexing of a plain array; non-trivial = distinct (vector type, name, form)")
MIN = 5000
QUICK = 20
NAMES = {2: ["xy", "ra"], 3: ["xyz", "rgb"], 4: ["xyzw", "rgba"]}


def vectors(m, single=True):
    """A vector array, a plain copy of it and its number of components."""
    k = m.pick([2, 3, 4])
    kind = m.pick(["array", "array", "view", "strided", "matrix", "to"] + (["single"] if single else []))
    letter = m.pick(["", "", "d", "i", "u"])
    if kind == "single":
        Z = getattr(glm, f"{letter}vec{k}")()
        Z[...] = m.rng.integers(1, 99, k)
    else:
        n = m.integer(1, 7)
        if kind == "matrix":
            Z = getattr(glm, f"{letter}mat{k}")(n)
            Z[...] = m.rng.integers(1, 99, (n, k, k))
        else:
            Z = getattr(glm, f"{letter}vec{k}")(2 * n)
            Z[...] = m.rng.integers(1, 99, (2 * n, k))
            if kind == "view":
                Z = Z[n:]
            elif kind == "strided":
                Z = Z[::2]
            elif kind == "to":
                Z = getattr(glm, f"to_vec{k}")(np.asarray(Z))
    return Z, np.array(Z), k, kind


def read(m):
    """All names of up to three letters, and some of four, on one array."""
    glm.ndarray.tracked.__tracker_class__ = None
    Z, plain, k, kind = vectors(m)
    names = m.pick(NAMES[k])
    selections = [s for r in (1, 2, 3) for s in itertools.product(range(k), repeat=r)]
    selections += [tuple(m.integer(0, k - 1) for _ in range(m.integer(4, 6))) for _ in range(8)]
    for selection in selections:
        name = "".join(names[i] for i in selection)
        got = np.asarray(getattr(Z, name))
        m.check(got.shape == plain.shape[:-1] + (len(name),) and np.array_equal(got, plain[..., list(selection)]),
                f"{name} of {kind} vec{k}: {got.tolist()}, expected {plain[..., list(selection)].tolist()}")
        m.eq(got.dtype, plain.dtype, f"type of {name}")
        if len(name) > 1:
            # What was read is an array of its own
            got[...] = 0
            m.eq(np.asarray(Z), plain, f"{kind} vec{k} after {name} was read and overwritten")
    m.eq(np.asarray(Z), plain, "vectors after reads")
    for other in ("q", "xq", "u", "s") + (("z", "w") if k == 2 else ("w",) if k == 3 else ()):
        m.raises(AttributeError, lambda: getattr(Z, other), f"{other} of vec{k}")
    m.event("read", kind, k, names)
    m.seen("read", kind, k, names)


def assignment(m, Z, plain, k, names):
    """A random assignment by component names: (name, form, value given, function applying it to plain) or None."""
    number = lambda *shape: m.rng.integers(1, 99, shape)
    selection = [int(i) for i in m.rng.permutation(k)[:m.integer(1, k)]]
    name = "".join(names[i] for i in selection)
    n = len(plain) if plain.ndim == 2 else 0
    form = m.pick(["scalar", "numpy scalar", "per vector", "per component", "per component scalar", "rows",
                   "row array", "own", "own view", "own reversed", "tracked rows", "same"])
    s = len(selection)
    if form in ("scalar", "numpy scalar"):
        value = m.integer(1, 99)
        value = given = value if form == "scalar" else np.float32(value)
        want = lambda i: value
    elif form == "per vector" and n:
        value = number(n)
        if n == 1:
            value = number(1)
        want = lambda i: value
        given = m.pick([value, value.tolist()])
    elif form == "per component" and n and s != n and s * n != n:
        values = number(s, n)
        given = m.pick([lambda: tuple(values), lambda: values, lambda: values.tolist()])()
        want = lambda i: values[i]
    elif form == "per component scalar" and s > 1 and s != n:
        values = number(s)
        given = m.pick([lambda: tuple(int(v) for v in values), lambda: values, lambda: values.tolist()])()
        want = lambda i: values[i]
    elif form in ("rows", "tracked rows") and n and s != n and s > 1:
        values = number(n, s)
        given = values.tolist() if m.chance(0.3) else values
        if form == "tracked rows":
            given = values.astype(np.float32).view(glm.ndarray.tracked)
        want = lambda i: values[:, i]
    elif form == "row array" and n > 1 and s > 1 and s != n:
        values = number(1, s)
        if s == 1 or values.size == n:
            return None
        given = values
        want = lambda i: values[0, i]
        if len(values) == s:
            return None
    elif form in ("own", "same") and n and s > 1 and s != n:
        # components exchanged among themselves, or written as they are
        other = selection if form == "same" else [int(i) for i in m.rng.permutation(k)[:s]]
        given = getattr(Z, "".join(names[i] for i in other))
        copied = plain[:, other].copy()
        want = lambda i: copied[:, i]
    elif form == "own view" and n and s > 1 and s != n:
        # rows read from the very memory that is written
        step = m.pick([1, -1])
        back = m.pick([1, -1])
        given = m.pick([Z, np.asarray(Z)])[::back, ::step]
        given = given[:, :s] if m.chance(0.5) else given[:, k - s:]
        copied = np.array(given)
        want = lambda i: copied[:, i]
    elif form == "own reversed" and n > 1:
        # one value per vector, read from a component that may be written
        given = Z[::-1, m.integer(0, k - 1)]
        copied = np.array(given)
        want = lambda i: copied
    else:
        return None

    def apply():
        for i, component in enumerate(selection):
            plain[..., component] = want(i)
    return name, form, given, apply


def assign(m):
    glm.ndarray.tracked.__tracker_class__ = None
    Z, plain, k, kind = vectors(m)
    if kind == "matrix":
        return matrices(m, Z, plain, k)
    names = m.pick(NAMES[k])
    for _ in range(8):
        found = assignment(m, Z, plain, k, names)
        if found is None:
            continue
        name, form, given, apply = found
        n = len(plain) if plain.ndim == 2 else 0
        shape = np.shape(given)
        setattr(Z, name, given)
        apply()
        m.event(form, name, kind, n)
        m.check(np.array_equal(np.asarray(Z), plain),
                f"{kind} vec{k} x {n}: {name} = {shape} ({form}): {np.asarray(Z).tolist()}, "
                f"expected {plain.tolist()}")
        m.seen("assign", kind, name, form)
    for wrong in ("xr", "q") if k > 2 else ("xa",):
        before = plain.copy()
        try:
            setattr(Z, wrong, 5)
        except Exception:
            pass
        m.eq(np.asarray(Z), before, f"vectors after an assignment to {wrong}")


def matrices(m, Z, plain, k):
    """On matrices, component names denote columns."""
    names = m.pick(NAMES[k])
    for _ in range(4):
        i = m.integer(0, k - 1)
        v = m.integer(1, 99)
        setattr(Z, names[i], v)
        plain[..., i] = v
        m.eq(np.asarray(Z), plain, f"matrices after {names[i]} = {v}")
        m.seen("matrix", names[i], k)


def grids(m):
    """Vectors arranged in a grid."""
    glm.ndarray.tracked.__tracker_class__ = None
    k = m.pick([2, 3, 4])
    a, b = m.pick([(5, 6), (7, 5), (6, 9), (5, 8)])
    Z = getattr(glm, f"{m.pick(['', 'd', 'i'])}vec{k}")((a, b))
    Z[...] = m.rng.integers(1, 99, (a, b, k))
    plain = np.array(Z)
    names = m.pick(NAMES[k])
    for _ in range(5):
        selection = [int(i) for i in m.rng.permutation(k)[:m.integer(2, k)]]
        name = "".join(names[i] for i in selection)
        m.eq(np.asarray(getattr(Z, name)), plain[..., selection], f"{name} of a grid of vec{k}")
        one = m.integer(0, k - 1)
        m.eq(np.asarray(getattr(Z, names[one])), plain[..., [one]], f"{names[one]} of a grid of vec{k}")
        form = m.pick(["scalar", "grid of rows", "list of rows", "component"])
        if form == "component":
            name, selection = names[one], [one]
            value = m.rng.integers(1, 99, (a, b, 1))
            plain[..., [one]] = value
        elif form == "scalar":
            value = m.integer(1, 99)
            plain[..., selection] = value
        else:
            value = m.rng.integers(1, 99, (a, b, len(selection)))
            plain[..., selection] = value
            if form == "list of rows":
                value = value.reshape(a * b, -1)
        setattr(Z, name, value)
        m.check(np.array_equal(np.asarray(Z), plain),
                f"grid {a}x{b} of vec{k}: {name} = {np.shape(value)} ({form}): {np.asarray(Z).tolist()}, "
                f"expected {plain.tolist()}")
        m.seen("grid", k, name, form)


def refused(m):
    """Values that fit no form are refused."""
    glm.ndarray.tracked.__tracker_class__ = None
    k = m.pick([3, 4])
    n = m.pick([5, 7])
    Z = getattr(glm, f"vec{k}")(n)
    Z[...] = m.rng.integers(1, 99, (n, k))
    plain = np.array(Z)
    names = m.pick(NAMES[k])
    shape = m.pick([(n + 1,), (n + 1, 2), (n, 4), (9,)])
    m.raises((IndexError, ValueError), lambda: setattr(Z, names[:2], np.ones(shape)), f"{names[:2]} = {shape}")
    others = [c for c in range(k) if c not in (0, 1)]
    m.eq(np.asarray(Z)[:, others], plain[:, others], "components not named")
    m.seen("refused", k, n, shape)


RANDOM = [(read, 60, 1500), (assign, 300, 10000), (grids, 20, 300), (refused, 30, 300)]
