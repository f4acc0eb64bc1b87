"""C05 — converter registry: lookups follow registrations exactly."""
import numpy as np

from . import env
from .env import gsp

ID = "C05"
RULE = ("random histories of register/unregister (single and tuple sources, wildcard, all destination "
        "spellings) over a diamond of user types; after every step conversions of values of every type to "
        "every destination are compared with a model table; non-trivial = distinct (table, source, "
        "destination, outcome)")
MIN = 400
QUICK = 20


class CnvA:
    pass


class CnvB(CnvA):
    pass


class CnvC(CnvB):
    pass


class CnvD:
    pass


class CnvE(CnvD, CnvB):
    pass


class CnvDst:
    pass


class CnvDst2:
    pass


class CnvInt(int):
    pass


class Outer:
    class CnvInner:
        pass


def local():
    class CnvLocal(CnvA):
        pass

    class CnvLocalDst:
        pass
    return CnvLocal, CnvLocalDst


CnvLocal, CnvLocalDst = local()


SOURCES = ["CnvA", "CnvB", "CnvC", "CnvD", "CnvE", "CnvInt", "CnvInner", "CnvLocal", "str", "*"]
DESTINATIONS = {"CnvDst": CnvDst, "CnvDst2": CnvDst2, "CnvLocalDst": CnvLocalDst, "some-name": None}
TEXTS = ["a text", "", "CnvA", "CnvDst", "list", "str", "*", "some-name"]
VALUES = [CnvA, CnvB, CnvC, CnvD, CnvE, CnvInt, Outer.CnvInner, CnvLocal, float, dict] + TEXTS


def lookup(table, value, dst):
    """Functions that may convert the value: its own type's, else a wildcard's or a base's."""
    own = table.get((type(value).__name__, dst))
    if own is not None:
        return [own]
    names = ["*"] + [base.__name__ for base in type(value).__mro__[1:]]
    return [table[(name, dst)] for name in names if (name, dst) in table]


def verify(m, table, what):
    for cls in VALUES:
        value = cls if isinstance(cls, str) else cls()
        for dst, dst_type in DESTINATIONS.items():
            if isinstance(value, str) and (value, dst) in table:
                continue        # the name of a type also stands for the type
            expected = lookup(table, value, dst)
            target = dst if dst_type is None or m.chance() else dst_type
            text = f"{what}: {value if isinstance(value, str) else cls.__name__} to {dst} with {sorted(k for k in table)}"
            m.seen(sorted(table), str(cls), dst, len(expected))
            if not expected:
                m.raises(ValueError, lambda: gsp.io.convert(value, target), text)
            else:
                try:
                    got = gsp.io.convert(value, target)
                except ValueError as error:
                    m.check(False, f"{text}: {error}")
                m.check(any(got == f(value) for f in expected) and got[-1] is value, f"{text}: used {got[:2]}")


def history(m):
    converters = gsp.io.converters
    others = dict(converters)
    table = {}
    number = 0
    try:
        for _ in range(m.integer(5, 20)):
            src = m.pick(SOURCES)
            if m.chance(0.3):
                src = tuple(m.pick(SOURCES) for _ in range(m.integer(1, 3)))
                src = tuple(dict.fromkeys(src))
                if m.chance(0.3):
                    src = list(src)
            dst = m.pick(DESTINATIONS)
            pairs = [(s, dst) for s in (src if isinstance(src, (tuple, list)) else [src])]
            if m.chance(0.6):
                number += 1

                def converter(value, number=number):
                    return ("result", number, value)
                taken = [p for p in pairs if p in table]
                what = f"register({src}, {dst})"
                m.event(what, "taken" if taken else "free")
                if taken:
                    m.raises(TypeError, lambda: gsp.io.register(src, dst)(converter), what)
                    kept = [p for p in pairs[:pairs.index(taken[0])]]
                    # a tuple is registered source by source up to the refused one, or not at all
                    for pair in kept:
                        if converters.get(pair) is converter:
                            table[pair] = converter
                else:
                    m.check(gsp.io.register(src, dst)(converter) is converter, f"{what} returns the function")
                    table.update((p, converter) for p in pairs)
            else:
                what = f"unregister({src}, {dst})"
                m.event(what)
                gsp.io.unregister(src, dst)
                for pair in pairs:
                    table.pop(pair, None)
            verify(m, table, what)
            m.check({k: v for k, v in converters.items() if not k[1] in DESTINATIONS} == others,
                    f"{what} touched other converters")
    finally:
        for key in [k for k in converters if k[1] in DESTINATIONS]:
            gsp.io.unregister(*key)


def values_not_copied(m):
    """The function gets the value itself, by value or class of destination; errors are ValueErrors."""
    calls = []

    @gsp.io.register(("CnvA", "CnvD"), "CnvDst")
    def keep(value):
        calls.append(value)
        return value
    try:
        for _ in range(10):
            value = m.pick([CnvA, CnvB, CnvD, CnvE])()
            m.check(gsp.io.convert(value, m.pick(["CnvDst", CnvDst])) is value, "result of the converter")
            m.check(calls[-1] is value, "value received by the converter")
            m.raises(ValueError, lambda: gsp.io.convert(value, "CnvDst2"), "no such converter")
            m.raises(ValueError, lambda: gsp.io.convert(3.5, CnvDst), "no such converter")
            m.seen(type(value).__name__)
    finally:
        gsp.io.unregister(["CnvA", "CnvD"], "CnvDst")


def shipped(m):
    """The converters the packages register do what their names say."""
    C = gsp.core
    rgba = [round(m.real(0, 1), 4) for _ in range(4)]
    convert = gsp.io.convert
    for value in (rgba, tuple(rgba)):
        color = convert(value, m.pick(["Color", C.Color]))
        m.check(type(color) is C.Color and list(color) == rgba, "colour from a sequence")
        m.check([color.r, color.g, color.b, color.a] == rgba, "components of a colour")
    color = C.Color(*rgba)
    m.check(convert(color, "list") == rgba and type(convert(color, list)) is list, "list from a colour")
    m.check(convert(color, "tuple") == tuple(rgba), "tuple from a colour")
    seq = [m.integer(0, 9) for _ in range(m.integer(0, 6))]
    m.check(convert(seq, "tuple") == tuple(seq) and convert(tuple(seq), "list") == seq, "list/tuple")
    number = m.integer(1, 12)
    m.check(convert(number, "Marker") is C.Marker(number), "marker from a number")
    A = m.rng.uniform(-3, 3, (4, 4))
    m.close(np.asarray(convert(A, "Matrix")), A, "matrix from an array", 1e-6)
    import base64
    raw = m.rng.bytes(m.integer(0, 40))
    m.check(bytes(convert(base64.b64encode(raw).decode(), "memoryview")) == raw, "memory from base64")
    n = m.integer(1, 6)
    array = m.rng.integers(-9, 9, (n, m.integer(1, 4))).astype(m.pick(["i4", "f4", "f8", "u1"]))
    buffer = convert(array, m.pick(["Buffer", C.Buffer]))
    m.check(len(buffer) == n and np.asarray(buffer).tobytes() == array.tobytes(), "buffer from an array")
    values = [float(x) for x in array[:, 0]]
    buffer = convert(values, "Buffer")
    m.check(np.asarray(buffer).tolist() == values, "buffer from a list")
    nested = [[m.integer(0, 9) for _ in range(m.integer(1, 4))] for _ in range(m.integer(1, 5))]
    items = convert(nested, "List")
    m.check(len(items) == len(nested) and [list(map(int, items[i])) for i in range(len(items))] == nested,
            "list from nested lists")
    m.seen("shipped", n, array.dtype.str, len(nested), number)


RANDOM = [(history, 60, 1200), (values_not_copied, 4, 20), (shipped, 40, 500)]
