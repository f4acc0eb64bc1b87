"""C23 — a buffer is a faithful view of the data it was given."""
import base64

import numpy as np

import gsp.io

from .env import backend, glm, quiet

ID = "C23"
RULE = ("random histories of a backend buffer (created from bytes, a memory view, a strided view, base64 text or nothing, "
        "with all kinds of element types, then updated at random byte offsets) against a model holding the bytes, and "
        "arrays of all types and layouts used where a buffer is expected; non-trivial = distinct (type, item shape, "
        "source form, kind of update) combinations")
MIN = 3000
QUICK = 20
TYPES = ["u1", "i1", "<i2", ">i2", "<u4", "<i4", ">f4", "<f4", "<f8", "<f2", "<i8", "?", "<c8"]


def kind(m):
    """A data type."""
    choice = m.integer(0, 9)
    if choice < 6:
        return np.dtype(m.pick(TYPES))
    names = ["x", "y", "color", "w"][:m.integer(1, 4)]
    if choice < 8:
        return np.dtype([(n, m.pick(TYPES)) for n in names])
    return np.dtype([(n, m.pick(TYPES), (m.integer(2, 4),)) if m.chance() else (n, m.pick(TYPES)) for n in names])


def content(m, size):
    # Bytes that are valid whatever the type
    return m.rng.integers(0, 2 if m.chance(0.2) else 256, size, dtype=np.uint8).tobytes()


def exposed(m, buffer, count, dtype, size, data, label):
    """The array of a buffer of count items of size bytes holding data."""
    A = np.asanyarray(buffer)
    m.eq(len(buffer), count, f"{label}: length")
    m.eq(len(A), count, f"{label}: number of items")
    m.eq(A.dtype, dtype, f"{label}: element type")
    m.eq(A.nbytes, size * count, f"{label}: number of bytes")
    if data is not None:
        m.check(A.tobytes() == data, f"{label}: content {A.tobytes().hex()[:200]}, expected {data.hex()[:200]}")


def given(m, data):
    form = m.pick(["bytes", "memoryview", "bytearray view", "base64", "strided view", "array view"])
    if form == "bytes":
        return data, form, None
    if form == "memoryview":
        return memoryview(data), form, None
    if form == "bytearray view":
        owner = bytearray(data)
        return memoryview(owner), form, lambda: bytes(owner)
    if form == "base64":
        return base64.b64encode(data).decode(), form, None
    if form == "strided view":
        wide = bytearray(2 * len(data))
        wide[::2] = data
        return memoryview(wide)[::2], form, lambda: bytes(wide[::2])
    owner = np.frombuffer(data, np.uint8).copy()
    if len(data) % 4 == 0 and m.chance():
        owner = owner.view(np.int32)
        if len(data) % 8 == 0 and m.chance():
            owner = owner.reshape(2, -1)
        return owner.data, "typed view", lambda: owner.tobytes()
    return owner.data, form, lambda: owner.tobytes()


def histories(m):
    gsp.io.record(m.chance())
    dtype = kind(m)
    count = m.integer(1, 9)
    components = m.pick([1, 1, 1, 2, 3, 4, 16])
    size = dtype.itemsize * components
    label = f"Buffer({count}, {dtype}) of items of {components}"
    with quiet():
        if m.chance(0.15):
            components, size = 1, dtype.itemsize
            buffer = backend.Buffer(count, dtype)
            form, owner, data = "none", None, None
        else:
            data = content(m, size * count)
            if m.chance(0.15):
                data = content(m, 1) * (size * count)
            source, form, owner = given(m, data)
            buffer = backend.Buffer(count, dtype, source)
        exposed(m, buffer, count, dtype, size, data, f"{label} from {form}")
        state = bytearray(data) if data is not None else None
        total = size * count
        for _ in range(m.integer(0, 8)):
            if state is None:
                offset, piece = 0, content(m, total)
                state = bytearray(total)
            else:
                offset = m.integer(0, total - 1)
                if m.chance(0.4):
                    offset -= offset % size
                length = m.pick([m.integer(1, total - offset), min(size, total - offset), total - offset])
                piece = content(m, length)
            if m.chance(0.1) and len(piece) < total:
                piece = b""
            source, how, _ = given(m, piece)
            # What was read before must not hide the update
            if m.chance():
                np.asanyarray(buffer).sum if dtype.names is None else None
            buffer.set_data(offset, source)
            state[offset:offset + len(piece)] = piece
            exposed(m, buffer, count, dtype, size, bytes(state), f"{label} from {form} after set_data({offset}, {len(piece)} bytes as {how})")
            m.seen(dtype.kind, dtype.itemsize, components > 1, form, how, offset % size == 0)
        if owner is not None and m.evaluations > 6:
            m.check(owner() == data, f"{label} from {form}: memory it was created from was modified by set_data")
        converted = np.asarray(buffer)
        before = converted.tobytes()
        own = np.array(buffer)
        m.check(own.tobytes() == before, f"{label} from {form}: copied as an array")
        own.reshape(-1).view(np.uint8)[...] ^= 255
        m.check(np.asarray(buffer).tobytes() == before,
                f"{label} from {form}: content after changing an array copied from the buffer")
        if dtype.kind in "if" and dtype.isnative:
            m.close(np.asarray(buffer, dtype=np.float64), converted.astype(np.float64), f"{label} as double")
    m.event(label, form)
    m.seen(str(dtype), components, form)


def empty(m):
    """A buffer of no item."""
    dtype = kind(m)
    label = f"Buffer(0, {dtype})"
    source = m.pick([None, b"", memoryview(b""), "", memoryview(bytearray())])
    with quiet():
        buffer = backend.Buffer(0, dtype) if source is None else backend.Buffer(0, dtype, source)
        exposed(m, buffer, 0, dtype, dtype.itemsize, b"", f"{label} from {source!r}")
        buffer.set_data(0, b"")
        exposed(m, buffer, 0, dtype, dtype.itemsize, b"", f"{label} after an empty update")
    m.seen("empty", str(dtype), type(source).__name__)


def layouts(m, dtype):
    """An array and how it is laid out."""
    shape = (m.integer(1, 7),) + m.pick([(), (), (2,), (3,), (4,), (2, 3)])
    base = m.rng.integers(0, 99, shape).astype(dtype)
    form = m.pick(["plain", "strided", "reversed", "fortran", "column", "read only", "offset", "broadcast", "transposed"])
    if form == "strided":
        return np.repeat(base, 2, axis=0)[::2], form
    if form == "reversed":
        return base[::-1], form
    if form == "fortran":
        return np.asfortranarray(base), form
    if form == "column":
        return np.stack([base, base + base], axis=-1)[..., 0], form
    if form == "read only":
        base.flags.writeable = False
    if form == "offset":
        return np.concatenate([base, base])[1:1 + len(base)], form
    if form == "broadcast":
        return np.broadcast_to(base[0], shape), form
    if form == "transposed" and base.ndim > 1:
        return base.T, form
    return base, form


def arrays(m):
    """Arrays and sequences where a buffer is expected."""
    gsp.io.record(m.chance())
    dtype = np.dtype(m.pick(["u1", "<i2", "<u4", "<i4", "<f4", "<f8", ">f4", "<i8"]))
    array, form = layouts(m, dtype)
    tracked = m.chance(0.3)
    source = array
    if tracked:
        source = np.array(array).view(glm.ndarray.tracked)
        form = "tracked"
        if m.chance() and len(source) > 1:
            cut = m.integer(1, len(source) - 1)
            form, source = m.pick([("tracked head", source[:cut]), ("tracked tail", source[cut:]),
                                   ("tracked strided", source[::2]), ("tracked reversed", source[::-1])])
        array = np.array(source)
    before = np.array(array)
    elements = before
    sequence = not tracked and m.chance(0.2)
    if sequence:
        source = before.tolist() if m.chance() else tuple(before.tolist())
        elements = np.asarray(source)
        form = "list"
    buffer = convert(source)
    label = f"{form} array {before.shape} {dtype} as a buffer"
    m.check(isinstance(buffer, backend.Buffer), f"{label}: {type(buffer)}")
    with quiet():
        exposed(m, buffer, len(elements), elements.dtype, elements.nbytes // len(elements), elements.tobytes(), label)
    m.seen("array", form, str(elements.dtype), before.ndim)
    if not sequence:
        m.eq(np.array(source), before, f"{label}: array afterwards")
        # The buffer holds what the array was at that time
        if source.flags.writeable and not tracked:
            source[...] = 0
            with quiet():
                m.check(np.asanyarray(buffer).tobytes() == elements.tobytes(), f"{label}: content after the array changed")
            m.seen("later", form)
        elif tracked and source.flags.writeable and source is source.base or form == "tracked":
            source[...] = 1
            with quiet():
                m.check(np.asanyarray(buffer).tobytes() == np.array(source).tobytes(),
                        f"{label}: content after the tracked array changed")
            m.seen("tracked later")
    m.event(label)


def convert(value):
    from gsp.io.convert import convert as through
    return through(value, "Buffer")


RANDOM = [(empty, 10, 100), (histories, 400, 20000), (arrays, 300, 15000)]
