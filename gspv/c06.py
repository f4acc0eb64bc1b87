"""C06 — a data type's textual form round-trips."""
import numpy as np

from . import env
from .env import gsp

ID = "C06"
RULE = ("every numpy scalar type in every byte order, sub-array sizes, and random packed structures of "
        "scalar and one-dimensional sub-array fields: text -> data type must read the same random bytes to "
        "the same values; also through a JSON dump, and as the data type of a backend buffer; "
        "non-trivial = distinct data types")
MIN = 400
QUICK = 20
KINDS = ["b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "S5", "U3",
         "V6"]


def scalar(m):
    return np.dtype(m.pick("<>=") + m.pick(KINDS))


def name(m):
    return m.pick(["x", "y", "color", "position", "f0", "a b", "é", "id", "Z_1", "r",
                   m.pick(["_", "__", "0", "1", "2d", "f4", "float32", "<f4", "a;b", "a" * 40, " ", "X", "dtype"])])


def structure(m):
    count = m.integer(1, 6)
    names = list(dict.fromkeys(name(m) for _ in range(count)))
    fields = []
    for n in names:
        size = m.pick([None, None, 2, 3, 4, 16, m.pick([255, 256, 300, 1024])])
        fields.append((n, scalar(m)) if size is None else (n, scalar(m), size))
    return np.dtype(fields)


def same_type(m, got, dt, text):
    m.check(isinstance(got, np.dtype), f"{text!r} converts to {got!r}")
    m.eq(got.itemsize, dt.itemsize, f"item size of {text!r}")
    m.eq(got.names, dt.names, f"field names of {text!r}")
    if dt.names:
        for n in dt.names:
            m.eq(got.fields[n][1], dt.fields[n][1], f"offset of {n!r} in {text!r}")
            same_type(m, got[n], dt[n], text)
        return
    m.eq(got.base.kind, dt.base.kind, f"kind of {text!r}")
    m.eq(got.base.newbyteorder("=") == got.base, dt.base.newbyteorder("=") == dt.base,
         f"byte order of {text!r}")
    m.eq(int(np.prod(got.shape, dtype=int)), int(np.prod(dt.shape, dtype=int)), f"count of {text!r}")


def same_values(m, got, dt, text):
    raw = m.rng.integers(0, 2, 3 * dt.itemsize, dtype=np.uint8).tobytes()
    a, b = np.frombuffer(raw, got), np.frombuffer(raw, dt)
    if dt.names:
        for n in dt.names:
            m.check(a[n].tobytes() == b[n].tobytes() and a[n].shape == b[n].shape,
                    f"values of field {n!r} read through {text!r}")
            if a[n].dtype.kind not in "V":
                m.check(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind in "fc"),
                        f"values of field {n!r} read through {text!r}")
    elif b.dtype.kind not in "V":
        m.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=b.dtype.kind in "fc"),
                f"values read through {text!r}")


def round_trip(m, dt):
    text = gsp.io.convert(dt, "str")
    m.check(isinstance(text, str), f"textual form of {dt}")
    got = gsp.io.convert(text, m.pick(["dtype", np.dtype]))
    same_type(m, got, dt, text)
    same_values(m, got, dt, text)
    m.eq(gsp.io.convert(got, "str"), text, f"textual form of the type read back from {text!r}")
    m.event(str(dt), "->", text)
    m.seen(str(dt.descr), dt.shape)


def scalars(m):
    for kind in KINDS:
        for order in "<>=|":
            dt = np.dtype(order + kind)
            round_trip(m, dt)
            for size in (2, 3, 5, 16, 255, 256, 1000):
                round_trip(m, np.dtype((dt, size)))


def structures(m):
    for _ in range(6):
        round_trip(m, structure(m))


def one_field(m):
    for kind in KINDS:
        dt = np.dtype([(name(m), m.pick("<>") + kind)])
        round_trip(m, dt)
        round_trip(m, np.dtype([(name(m), m.pick("<>") + kind, m.integer(2, 9))]))


def through_buffer(m):
    """A buffer dumped to JSON and replayed reads its bytes through the same type."""
    import os
    import tempfile
    dt = m.pick([structure, structure, scalar])(m)
    if dt.kind in "SUV" and not dt.names:
        dt = np.dtype("<f4")
    count = m.integer(1, 5)
    raw = m.rng.integers(0, 2, count * dt.itemsize, dtype=np.uint8).tobytes()
    buffer = gsp.core.Buffer(count, dt, raw)
    queue = gsp.io.queue("active")
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "q.json")
        gsp.io.json.save(path, queue)
        loaded = env.new_queue("loaded")
        gsp.io.json.load(path, loaded)
    from .env import Object, backend
    loaded.run(backend)
    array = np.asarray(Object.objects[buffer.id])
    want = np.frombuffer(raw, dt)
    m.check(array.tobytes() == raw, f"bytes of a replayed buffer of {dt}")
    m.eq(array.dtype.names, dt.names, f"field names of a replayed buffer of {dt}")
    if dt.names:
        m.eq(len(array), count, f"items of a replayed buffer of {dt}")
        for n in dt.names:
            m.check(array[n].shape == want[n].shape and array[n].tobytes() == want[n].tobytes(),
                    f"field {n!r} of a replayed buffer of {dt}")
    else:
        m.check(np.array_equal(array, want, equal_nan=want.dtype.kind in "fc"),
                f"values of a replayed buffer of {dt}")
    m.seen("buffer", str(dt.descr))


FIXED = [scalars, one_field]
RANDOM = [(structures, 80, 1500), (through_buffer, 40, 600)]
