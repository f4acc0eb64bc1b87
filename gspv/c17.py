"""C17 — colormaps map the stated range linearly onto the named colormap."""
import matplotlib
import numpy as np

from . import draw
from . import env
from .env import backend, gsp
from .trans import T, holder, values

ID = "C17"
RULE = ("random values (with extremes, values outside and exactly at the bounds, integers, several ranks), bounds "
        "(absent, zero, negative, one-sided) and colormap names, bound to arrays, buffers or chained on transforms, "
        "after copies and name changes, also as drawn; each colour is compared with the table of the named colormap at "
        "the value's relative position; non-trivial = distinct (name, bounds, form, value kind)")
MIN = 1500
NAMES = ["magma", "viridis", "gray", "jet", "hsv", "tab10", "RdBu", "plasma_r", "Set3", "twilight", "cool", "Greys"]


def allowed(name, value, low, high):
    """Every colour the value may have: the entries on both sides when it lies on a limit between two."""
    cmap = matplotlib.colormaps[name]
    if high == low:
        return {cmap(0)}
    relative = min(max((float(value) - low) / (high - low), 0.0), 1.0)
    found = set()
    for shift in (-2e-6, 0.0, 2e-6):
        place = min(max(relative + shift, 0.0), 1.0) * cmap.N
        found.add(tuple(cmap(min(int(place), cmap.N - 1))))
    return found


def judge(m, got, data, name, vmin, vmax, what):
    data = np.asarray(data, dtype=float)
    got = np.asarray(got)
    m.eq(got.shape, data.shape + (4,), f"{what}: shape of the colours")
    low = data.min() if vmin is None else vmin
    high = data.max() if vmax is None else vmax
    if low > high:
        return
    for value, color in zip(data.ravel(), got.reshape(-1, 4)):
        options = allowed(name, value, low, high)
        m.check(any(np.allclose(color, o, atol=1e-6) for o in options),
                f"{what}: {value} in [{low}, {high}] of {name} is {color}, expected {sorted(options)}")


def bounds(m, data):
    low, high = float(data.min()), float(data.max())
    span = max(high - low, 0.5) if high - low > 0.1 or high == low else high - low
    kind = m.pick(["none", "both", "zero min", "zero max", "min", "max", "inside", "outside", "exact"])
    return kind, {"none": (None, None), "both": (low - m.real(0, 1), high + m.real(0.1, 1)),
                  "zero min": (0.0, m.pick([None, 5.0])), "zero max": (m.pick([None, -9.0]), 0.0),
                  "min": (low + 0.1 * span, None), "max": (None, high - 0.1 * span),
                  "inside": (low + 0.25 * span, low + 0.75 * span), "outside": (low - span, high + 2 * span),
                  "exact": (low, high)}[kind]


def inverted(data, vmin, vmax):
    """The stated bounds are on the wrong side of the data."""
    low = data.min() if vmin is None else vmin
    high = data.max() if vmax is None else vmax
    return low > high


def data_of(m):
    kind = m.pick(["float32", "float64", "int", "constant", "rows", "signed", "small", "large", "far"])
    n = m.integer(1, 9)
    if m.chance(0.04):
        # as many as a table holds, and more
        n = m.pick([100, 255, 256, 257, 300, 1000, 1025])
    if kind == "int":
        data = m.rng.integers(-20, 20, n).astype(m.pick([np.int32, np.int64]))
    elif kind == "constant":
        data = np.full(n, m.pick([0.0, 1.5, -2.0]))
    elif kind == "rows":
        data = m.rng.uniform(-1, 1, (n, 2))
    elif kind == "small":
        data = m.rng.uniform(-1, 1, n) * 1e-3
    elif kind == "far":
        data = m.pick([1e6, -3e7]) + m.rng.uniform(0, 0.05, n)
    elif kind == "large":
        data = m.rng.uniform(-1, 1, n) * 1e4
    else:
        data = m.rng.uniform(-3, 3, n).astype(np.float32 if kind == "float32" else np.float64)
    return kind, data


def evaluations(m):
    kind, data = data_of(m)
    how, (vmin, vmax) = bounds(m, data)
    if inverted(data, vmin, vmax):
        return
    name = m.pick(NAMES)
    before = data.copy()
    form = m.pick(["array", "holder", "chained", "accessor", "operator", "chained twice", "scalar"])
    cmap = T.Colormap(name, vmin, vmax)
    env = {"data": data}
    if form == "array":
        t = cmap(data)
    elif form == "holder":
        t = cmap(holder(m, data)[0])
    elif form == "chained":
        t = cmap(T.Out("data"))
    elif form == "accessor":
        table = np.zeros(data.shape + (3,), data.dtype)
        table[..., 1] = data
        t = cmap(T.Y()(table))
    elif form == "operator":
        t = cmap(T.Out("data") + 0.0)
    elif form == "scalar":
        t = cmap(float(data.ravel()[0]))
        data = np.asarray(float(data.ravel()[0]))
        before = data.copy()
        if inverted(data, vmin, vmax):
            return
    else:
        t = cmap(T.X())(T.Out("rows"))
        env["rows"] = np.stack([data, data * 0], axis=-1)
    m.event(form, kind, how, name, (vmin, vmax), data.shape)
    judge(m, t.evaluate(env), data, name, vmin, vmax, form)
    m.eq(np.asarray(data), before, "values mapped")
    copies = [("copy", t.copy())]
    other = m.pick([x for x in NAMES if x != name])
    changed = t.copy()
    changed.set_colormap(other)
    judge(m, changed.evaluate(env), data, other, vmin, vmax, "after set_colormap")
    judge(m, t.evaluate(env), data, name, vmin, vmax, "original of a changed copy")
    for what, c in copies:
        judge(m, c.evaluate(env), data, name, vmin, vmax, what)
    t.set_colormap(other)
    judge(m, t.evaluate(env), data, other, vmin, vmax, "after set_colormap")
    for what, c in copies:
        judge(m, c.evaluate(env), data, name, vmin, vmax, what + " of a changed one")
    judge(m, cmap(data if form != "scalar" else float(data)).evaluate(env), data, name, vmin, vmax, "made later")
    # a colormap follows its data, with bounds of its own only when none are stated
    if form in ("chained", "operator"):
        env2 = {"data": data * 2 + 1}
        if inverted(env2["data"], vmin, vmax):
            return
        judge(m, t.evaluate(env2), env2["data"], other, vmin, vmax, "with other data")
    # and dynamic bounds are not kept from one evaluation to the next
    judge(m, t.evaluate(env), data, other, vmin, vmax, "again")
    m.seen(name, how, form, kind)


def drawn(m):
    """Fill colours mapped from data, as drawn."""
    n = m.pick([2, 3, 5, 6, 7])
    data = m.rng.uniform(-2, 2, n).astype(np.float32)
    how, (vmin, vmax) = bounds(m, data)
    low = data.min() if vmin is None else vmin
    high = data.max() if vmax is None else vmax
    if low > high:
        return
    name = m.pick(NAMES)
    canvas = backend.core.Canvas(80, 80, 100.0)
    viewport = backend.core.Viewport(canvas, 0, 0, 80, 80, gsp.core.Color(1.0, 1.0, 1.0, 1.0))
    P = m.rng.uniform(-0.9, 0.9, (n, 3)).astype(np.float32)
    P[:, 2] = m.rng.permutation(n) / n
    black = gsp.core.Color(0.0, 0.0, 0.0, 1.0)
    kind = m.pick(["Points", "Pixels", "Markers"])
    fill = T.Colormap(name, vmin, vmax)(data)
    if kind == "Points":
        backend.visual.Points(P, 25.0, fill, black, 0.0).render(viewport)
    elif kind == "Pixels":
        backend.visual.Pixels(P, fill).render(viewport)
    else:
        backend.visual.Markers(P, gsp.core.Marker.square, 25.0, None, 0.0, fill, black, 0.0).render(viewport)
    shapes = draw.split(draw.record(env.figure(canvas)))[1][0][1]
    m.eq(len(shapes), n, "items drawn")
    for shape in shapes:
        at = shape.middle / 40 - 1
        i = int(np.argmin(np.abs(P[:, :2] - at).max(axis=1)))
        m.check(any(np.allclose(shape.fill, o, atol=1e-6) for o in allowed(name, data[i], low, high)),
                f"{kind}: item {i} of value {data[i]} drawn in {shape.fill}")
    m.seen("drawn", kind, how, name)
    m.event("drawn", kind, how, name)


RANDOM = [(evaluations, 150, 8000), (drawn, 60, 1500)]
