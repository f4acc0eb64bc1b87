"""C16 — accessors and outputs select exactly the named components."""
import itertools

import numpy as np

from .env import backend, glm, gsp
from .trans import T, holder, values, variables

ID = "C16"
RULE = ("accessors (all letters, classes and keys; field names that are or look like components) bound to plain, "
        "structured, strided, tracked and buffer arrays of 1 to 4 components and any rank, or chained on other "
        "transforms; outputs of whole variables and every component string, of variables of 1 to 4 components, before "
        "and after a render; wrong names, keys and components; non-trivial = distinct (form, key, width, holder)")
MIN = 3000
ERRORS = (ValueError, IndexError, KeyError, TypeError)


def components(m):
    """An accessor bound to an array without fields."""
    width = m.integer(1, 4)
    rank = m.pick([1, 2, 2, 2, 3])
    shape = {1: (width,), 2: (m.integer(1, 6), width), 3: (m.integer(1, 4), 2, width)}[rank]
    array = values(m, shape)
    before = array.copy()
    for names in ("xyzw", "rgba"):
        for i, letter in enumerate(names):
            form = m.pick(["class", "key", "buffer argument"])
            held, how = holder(m, array) if rank == 2 else (array, "array")
            if form == "class":
                t = getattr(T, letter.upper())()(held)
            elif form == "key":
                t = T.Accessor(key=letter)(held)
            else:
                t = getattr(T, letter.upper())()
                t.set_buffer(held)
            m.event(form, letter, array.shape, str(array.dtype), how)
            if i < width:
                got = t.evaluate(m.pick([None, {}, {"viewport": None}]))
                m.eq(np.asarray(got), before[..., i], f"{letter} of a {shape} {how}")
                # the values are read at evaluation
                if how == "array" and m.chance(0.3):
                    array[..., i] += 1
                    m.eq(np.asarray(t.evaluate(None)), array[..., i], f"{letter} after a change")
                    array[..., i] = before[..., i]
                m.seen("component", letter, width, rank, how, form)
            else:
                m.raises(ERRORS, lambda: t.evaluate(None), f"{letter} of items with {width} components")
    for wrong in ("xy", "", "s", "X", "q", "xyzw", "wz", "0"):
        m.raises(ERRORS, lambda: T.Accessor(key=wrong)(array).evaluate(None), f"accessor with key {wrong!r}")
    m.raises(ERRORS, lambda: T.X().evaluate(None), "unbound accessor")
    m.eq(array, before, "accessed array")
    # bound when it is made, to a buffer of one item or more
    held = np.asarray(values(m, (m.pick([1, 1, 2, 3, 17]), 4)), dtype=np.float32)
    buffer = backend.core.Buffer(len(held), np.dtype((np.float32, 4)), held.tobytes())
    for i, letter in enumerate("xyzwrgba"):
        bound = {"class": lambda: getattr(T, letter.upper())(buffer),
                 "named": lambda: getattr(T, letter.upper())(buffer=buffer),
                 "key": lambda: T.Accessor(buffer, letter)}
        form = m.pick(sorted(bound))
        t = bound[form]()
        m.event("bound when made", form, letter, len(held))
        m.eq(np.asarray(t.evaluate(None)), held[:, i % 4], f"{letter} of a buffer of {len(held)} given when made")
        m.seen("bound when made", letter, form, len(held))
    # some of the items
    if rank == 2 and len(array) > 1:
        index = m.pick([m.integer(0, len(array) - 1), [len(array) - 1, 0], slice(1, None)])
        m.eq(np.asarray(T.X()(array).evaluate({"index": index})), array[index, 0] if not isinstance(index, list)
             else array[index][:, 0], "accessor with an index")


def fields(m):
    """Fields of structured arrays, also those named like a component."""
    names = [str(x) for x in m.rng.permutation(["x", "y", "z", "w", "r", "g", "b", "a", "position", "color", "rgb",
                                                "xy"])[:m.integer(1, 6)]]
    n = m.integer(1, 6)
    dtype = []
    for name in names:
        base = m.pick([np.float32, np.float64, np.int32, np.uint8])
        dtype.append((name, base) if m.chance(0.7) else (name, base, m.integer(2, 4)))
    shape = m.pick([(n,), (n,), (n,), (n, 1), (1, n), (n, 3), (2, n, 2)])
    array = np.zeros(shape, dtype)
    raw = array.view(np.ubyte)
    raw[...] = m.rng.integers(0, 64, raw.shape)
    for name in names:
        held, how = holder(m, array)
        if how == "buffer" and array.ndim > 1:
            held, how = array, "array"
        t = T.Accessor(key=name)(held)
        m.eq(np.asarray(t.evaluate(None)), array[name], f"field {name} of {names}")
        if len(name) == 1:
            t = getattr(T, name.upper())()(held)
            m.eq(np.asarray(t.evaluate(None)), array[name], f"{name} of a structured array with fields {names}")
        elif array.dtype[name].shape:
            i = m.integer(0, array.dtype[name].shape[0] - 1)
            letter = m.pick(["xyzw", "rgba"])[i]
            t = getattr(T, letter.upper())()(T.Accessor(key=name))(held)
            m.eq(np.asarray(t.evaluate(None)), array[name][..., i], f"{letter} of field {name}")
            m.seen("chained field", letter, name)
        m.seen("field", name, array[name].ndim, how)
    absent = m.pick([x for x in ("x", "g", "mass", "position", "xyz") if x not in names])
    m.raises(ERRORS, lambda: T.Accessor(key=absent)(array).evaluate(None), f"field {absent} of {names}")
    m.event(names, n)


def chained(m):
    """Accessors chained on other transforms select components of their result."""
    n = m.integer(1, 6)
    env = variables(m, n)
    screen, colors = env["screen[positions]"], env["fill_colors"]
    for _ in range(6):
        letter = m.pick("xyzrgb")
        i = ("xyz" if letter in "xyz" else "rgb").index(letter)
        make = getattr(T, letter.upper())
        kind = m.pick(["out", "operator", "colormap", "measure", "swizzled"])
        if kind == "out":
            name = m.pick(["screen[positions]", "fill_colors"])
            got, want = make()(T.Out(name)).evaluate(env), env[name][:, i]
        elif kind == "operator":
            got, want = make()(T.Out("screen[positions]") * 2 + 1).evaluate(env), screen[:, i] * 2 + 1
        elif kind == "colormap":
            cmap = T.Colormap("magma", 0.0, 9.0)(T.Out("sizes"))
            got, want = make()(cmap).evaluate(env), np.asarray(cmap.evaluate(env))[:, i]
        elif kind == "measure":
            rows = m.rng.uniform(0, 5, (n, 3))
            got = make()(T.Pixel()(rows)).evaluate(env)
            want = (rows * [1, 1, 0])[:, i]
        else:
            order = m.pick(list(itertools.permutations(range(3))))
            key = "".join("xyz"[o] for o in order)
            got = make()(T.Out("screen[positions]." + key)).evaluate(env)
            want = screen[:, order[i]]
        m.close(got, want, f"{letter} of {kind}", 1e-6)
        m.seen("chained", letter, kind)
    m.event("chained", n)


def outputs(m):
    """Whole variables and any components of them, in the requested order."""
    n = m.integer(1, 6)
    env = variables(m, n)
    env["pair"] = m.rng.uniform(0, 1, (n, 2))
    env["one"] = m.rng.uniform(0, 1, (n, 1))
    before = {k: np.array(v, copy=True) for k, v in env.items()}
    for name, width in (("screen[positions]", 3), ("fill_colors", 4), ("pair", 2), ("one", 1), ("sizes", 0)):
        t = T.Out(name)
        m.eq(np.asarray(t.evaluate(env)), before[name], f"output {name}")
        if not width:
            continue
        names = m.pick(["xyzw", "rgba"])
        for _ in range(8):
            key = "".join(m.pick(names[:width]) for _ in range(m.integer(1, 5)))
            want = before[name][:, [names.index(c) for c in key]]
            got = T.Out(f"{name}.{key}").evaluate(env)
            m.eq(np.asarray(got), want, f"components {key} of {name}")
            m.seen("out", key, width)
        # wrong components
        mixed = m.pick(["xr", "ya", "rgz", "q", "xyzq", "", "X", "0", "u"])
        m.raises(ERRORS, lambda: T.Out(f"{name}.{mixed}").evaluate(env), f"components {mixed!r} of {name}")
        if width < 4:
            beyond = names[:width][:m.integer(0, 2)] + names[m.integer(width, 3)]
            m.raises(ERRORS, lambda: T.Out(f"{name}.{beyond}").evaluate(env), f"components {beyond!r} of {name}")
            m.seen("beyond", beyond, width)
    unknown = m.pick(["screen", "positions", "Sizes", "screen[paths]", "", "size"])
    suffix = m.pick(["", ".x", ".rgb"])
    m.raises(ERRORS, lambda: T.Out(unknown + suffix).evaluate(env), f"unknown output {unknown + suffix!r}")
    for k, v in before.items():
        m.eq(np.asarray(env[k]), v, f"variable {k} after evaluations")
    m.event("out", n, unknown)


def visuals(m):
    """Inputs and outputs of a rendered visual, through their names."""
    n = m.pick([2, 3, 5, 6])
    canvas = backend.core.Canvas(80, 80, 100.0)
    viewport = backend.core.Viewport(canvas, 0, 0, 80, 80, gsp.core.Color(1.0, 1.0, 1.0, 1.0))
    P = m.rng.uniform(-0.9, 0.9, (n, 3)).astype(np.float32)
    sizes = m.rng.uniform(5, 50, n).astype(np.float32)
    black = gsp.core.Color(0.0, 0.0, 0.0, 1.0)
    S = m.rng.uniform(0.2, 1.4, 3)
    model = np.diag(list(S) + [1.0]).astype(np.float32)
    visual = backend.visual.Points(P, sizes, black, black, 1.0)
    visual.render(viewport, model, np.eye(4), np.eye(4))
    projected = P * S
    projected[:, 2] = 1 - projected[:, 2]
    env = {name: visual.get_variable(name) for name in ("positions", "sizes", "screen[positions]")}
    m.close(T.Out("screen[positions]").evaluate(env), projected, "screen positions", 1e-5)
    for key in ("x", "y", "z", "zyx", "xx", "yz"):
        m.close(T.Out("screen[positions]." + key).evaluate(env), projected[:, ["xyz".index(c) for c in key]],
                f"screen positions {key}", 1e-5)
    for key, i in (("X", 0), ("Y", 1), ("Z", 2)):
        m.close(getattr(T, key)()(T.Out("screen[positions]")).evaluate(env), projected[:, i], f"{key} of screen positions")
    m.seen("visual", n)


RANDOM = [(components, 120, 3000), (fields, 120, 3000), (chained, 60, 1500), (outputs, 80, 2500), (visuals, 20, 200)]
