"""C21 — lists of variable-size items partition their data exactly."""
import numpy as np

from .env import backend, glm, gsp

ID = "C21"
RULE = ("lists of random data (any element type and item shape, nested sequences of lists or arrays, common or "
        "individual sizes, empty items) read and assigned by item, slice, strided slice and several indices, protocol "
        "lists of buffers and converted nested lists included, against a list of lists kept in the harness; "
        "non-trivial = distinct (form of the list, access) combinations")
MIN = 4000
QUICK = 20


def partition(m, total):
    """Random sizes adding up to total."""
    sizes = []
    while sum(sizes) < total:
        sizes.append(min(m.integer(0 if m.chance(0.15) else 1, 4), total - sum(sizes)))
    return sizes


def model_of(data, sizes):
    ends = np.cumsum(sizes)
    return [data[e - s:e] for e, s in zip(ends, sizes)]


def make(m):
    """A list, the same as plain items, its sizes and how it was made."""
    kind = m.pick(["nested lists", "nested arrays", "common", "sizes", "whole"])
    dtype = m.pick([np.float32, np.float64, np.int32, np.uint8])
    shape = m.pick([(), (), (2,), (3,)])
    total = m.integer(1, 14)
    if kind == "common":
        size = m.integer(1, 5)
        if m.chance(0.05):
            size = m.pick([200, 300, 33000, 70000])
        total = size * m.integer(1, 5 if size < 300 else 2)
        sizes = [size] * (total // size)
    elif kind == "whole":
        sizes = [total]
    else:
        sizes = partition(m, total)
        if m.chance(0.2):
            sizes.append(0)
    data = m.rng.integers(0, 99, (total,) + shape).astype(dtype)
    items = model_of(data.copy(), sizes)
    if kind == "nested lists":
        data = data[..., 0] if data.ndim > 1 else data
        items = model_of(data.astype(float).copy(), sizes)
        nested = [list(int(x) for x in item) for item in items]
        return glm.vlist(nested if m.chance() else tuple(nested)), items, sizes, kind
    if kind == "nested arrays":
        return glm.vlist([item.copy() for item in items]), items, sizes, kind
    if kind == "common":
        return glm.vlist(data, size), items, sizes, kind
    if kind == "whole":
        return glm.vlist(data), items, sizes, kind
    given = m.pick([lambda: sizes, lambda: np.array(sizes), lambda: tuple(sizes), lambda: np.array(sizes, np.uint8)])()
    return glm.vlist(data, given), items, sizes, kind


def mixed(m):
    """Items given as plain sequences: numbers of several kinds, none lost."""
    items = []
    for _ in range(m.integer(1, 6)):
        size = m.pick([0, 1, 1, 2, 3])
        items.append(m.pick([lambda: [m.integer(-9, 9) for _ in range(size)],
                             lambda: [round(m.real(-9, 9), 3) for _ in range(size)],
                             lambda: [m.integer(0, 9) / 4 if k else m.integer(0, 9) for k in range(size)],
                             lambda: [m.pick([70000, 2 ** 20, -40000]) for _ in range(size)]])())
    if not any(items):
        items[0] = [m.integer(1, 9)]
    given = [m.pick([list, tuple])(item) for item in items]
    if m.chance(0.4):
        types = [m.pick([np.uint8, np.int16]) if all(x == int(x) and 0 <= x < 10 for x in item) and m.chance() else None
                 for item in items]
        given = [np.array(item, t) if t else np.array(item, float) for item, t in zip(items, types)]
    V = glm.vlist(m.pick([list, tuple])(given))
    m.event("mixed", items)
    m.eq(len(V), len(items), "number of items")
    m.eq([len(V[i]) for i in range(len(items))], [len(item) for item in items], "sizes of the items")
    for i, item in enumerate(items):
        m.close(np.asarray(V[i], float), np.array(item, float), f"item {i} of {items}", 1e-6)
    m.seen("mixed", tuple(str(np.asarray(g).dtype) for g in given), isinstance(given[0], np.ndarray))


def audit(m, V, items, sizes, what):
    m.eq(len(V), len(items), f"{what}: number of items")
    m.eq(list(np.asarray(V.itemsize)), sizes, f"{what}: item sizes")
    m.eq(V.size, sum(sizes), f"{what}: size")
    for i, item in enumerate(items):
        m.eq(np.asarray(V[i]), item, f"{what}: item {i}")
        m.eq(np.asarray(V[i - len(items)]), item, f"{what}: item {i - len(items)}")
    m.eq(np.asarray(V.data), np.concatenate(items), f"{what}: data")
    seen = [np.asarray(x) for x in V]
    m.check(len(seen) == len(items) and all(np.array_equal(a, b) for a, b in zip(seen, items)), f"{what}: iteration")
    converted(m, V, items, what)


def converted(m, V, items, what):
    """The list as an array."""
    data = np.concatenate(items)
    m.eq(np.asarray(V), data, f"{what}: as an array")
    m.eq(np.asarray(V, dtype=np.float64), data.astype(np.float64), f"{what}: as an array of doubles")
    m.eq(V.dtype, V.data.dtype, f"{what}: element type")
    m.eq(tuple(V.shape), V.data.shape, f"{what}: shape")
    m.eq(str(V).split(), ("[ " + " ".join(str(item.astype(V.dtype)) for item in items) + " ]").split(), f"{what}: as a text")
    own = np.array(V)
    m.eq(own, data, f"{what}: copied as an array")
    own[...] = 77
    m.eq(np.asarray(V.data), data, f"{what}: data after changing an array copied from the list")


def together(items, chosen):
    return np.concatenate([items[i] for i in chosen]) if chosen else items[0][:0]


def accesses(m):
    V, items, sizes, kind = make(m)
    count = len(items)
    m.event(kind, sizes, str(np.asarray(V.data).dtype))
    audit(m, V, items, sizes, kind)
    m.raises(IndexError, lambda: V[count], "item past the end")
    m.raises(IndexError, lambda: V[-count - 1], "item before the beginning")
    for _ in range(6):
        form = m.pick(["item", "slice", "slice", "several", "several tuple", "strided", "array"])
        if form == "item":
            key = m.integer(-count, count - 1)
            chosen = [key % count]
        elif form == "slice":
            a = m.integer(0, count - 1)
            key = m.pick([slice(a, m.integer(a + 1, count + 1)), slice(None, a + 1), slice(a, None), slice(None),
                          slice(a - count, None)])
            chosen = list(range(count))[key]
        elif form in ("several", "several tuple"):
            chosen = [m.integer(0, count - 1) for _ in range(m.integer(1, 4))]
            if m.chance():
                chosen = list(dict.fromkeys(chosen))
            key = chosen if form == "several" else tuple(chosen)
            if m.chance(0.3):
                key = type(key)(c - count for c in chosen)
        elif form == "strided":
            key = slice(m.pick([None, 0, 1]), m.pick([None, count]), m.pick([2, 3, -1]))
            if key.step == -1:
                key = slice(None, None, -1)
            chosen = list(range(count))[key]
        else:
            chosen = [m.integer(0, count - 1) for _ in range(m.integer(1, 3))]
            key = np.array(chosen)
        m.eq(np.asarray(V[key]), together(items, chosen), f"{kind} {sizes}: reading {key}")
        m.count("reads")
        if m.chance(0.7) and len(set(chosen)) == len(chosen):
            size = sum(sizes[c] for c in chosen)
            value = m.integer(100, 120)
            if m.chance() and size:
                value = m.rng.integers(100, 120, (size,) + np.asarray(V.data).shape[1:])
            V[key] = value
            done = 0
            for c in chosen:
                items[c][...] = value if np.ndim(value) == 0 else value[done:done + sizes[c]]
                done += sizes[c]
            audit(m, V, items, sizes, f"{kind} {sizes}: after assigning {key}")
            m.count("writes")
        m.seen(kind, form, count > 1, 0 in sizes)


def refused(m):
    """Sizes that do not add up."""
    total = m.integer(2, 12)
    data = np.arange(total)
    kind = m.pick(["common", "less", "more"])
    if kind == "common":
        size = m.pick([s for s in range(2, total + 4) if total % s])
        m.raises(ValueError, lambda: glm.vlist(data, size), f"{total} data in items of {size}")
    else:
        sizes = partition(m, total)
        if kind == "more":
            sizes[m.integer(0, len(sizes) - 1)] += m.integer(1, 3)
        else:
            i = m.pick([i for i, s in enumerate(sizes) if s])
            sizes[i] -= 1
        given = m.pick([sizes, np.array(sizes)])
        m.raises(ValueError, lambda: glm.vlist(data, given), f"{total} data in items of sizes {sizes}")
    m.seen("refused", kind, total)


def protocol(m):
    """Lists of the protocol: a data buffer and sizes; converted nested lists."""
    total = m.integer(1, 12)
    dtype = np.dtype(m.pick([np.float32, np.int32, np.uint32]))
    width = m.pick([1, 1, 2, 3])
    data = m.rng.integers(0, 99, (total, width) if width > 1 else total).astype(dtype)
    kind = m.pick(["sizes", "common", "converted"])
    whole = backend.core.Buffer(total, np.dtype((dtype, width)) if width > 1 else dtype, data.tobytes())
    if kind == "common":
        size = m.pick([s for s in range(1, total + 1) if total % s == 0])
        sizes = [size] * (total // size)
        L = backend.core.List(whole, size)
    elif kind == "sizes":
        sizes = partition(m, total)
        L = backend.core.List(whole, backend.core.Buffer(len(sizes), np.dtype(np.int32),
                                                         np.array(sizes, np.int32).tobytes()))
    else:
        sizes = [s for s in partition(m, total) if s]
        data = data[:, 0] if data.ndim > 1 else data
        nested = [[int(x) for x in item] for item in model_of(data, sizes)]
        L = gsp.io.convert(nested, "List")
    items = model_of(data, sizes)
    m.eq(len(L), len(sizes), f"{kind}: number of items")
    for i, item in enumerate(items):
        m.eq(np.asarray(L[i]), item, f"{kind} {sizes}: item {i}")
    read = [np.asarray(x) for x in L]
    m.check(len(read) == len(items) and all(np.array_equal(a, b) for a, b in zip(read, items)), f"{kind}: iteration")
    m.eq(np.asarray(L), data.reshape(np.asarray(L).shape), f"{kind} {sizes}: as an array")
    own = np.array(L)
    own[...] = 100
    m.eq(np.asarray(L), data.reshape(own.shape), f"{kind} {sizes}: data after changing an array copied from the list")
    m.event("protocol", kind, sizes)
    m.seen("protocol", kind, width, tuple(sizes))


RANDOM = [(accesses, 300, 12000), (refused, 60, 600), (mixed, 80, 1000), (protocol, 100, 2500)]
