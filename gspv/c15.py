"""C15 — measures convert units exactly, for any resolution, size and aspect."""
import numpy as np

from . import draw, env
from .env import backend, gsp
from .trans import T, UNITS

ID = "C15"
RULE = ("units evaluated on scalars and vectors for random resolutions, canvases and viewports (pixel, fractional and "
        "measured extents, before and after resizes), and drawn through every visual with positions offset by measures: "
        "the offset of the drawn shape in pixels on the renderer is compared with the definition of the unit; "
        "non-trivial = distinct (unit, value form, relative to, resized) observed")
MIN = 3000
DPI = [72.0, 100.0, 96.5, 50.0, 143.7, 200.0, 1.0]


def value(m, drawn=False):
    """A measure value and its components along x, y (and z)."""
    kind = m.pick(["int", "float", "tuple", "array", "rows", "pairs", "pair", "negative", "zero"] + ["grid"] * (not drawn))
    if kind == "int":
        k = m.integer(1, 50)
        return k, np.array([k, k, 0.0]), kind
    if kind == "float":
        k = m.real(0, 30)
        return k, np.array([k, k, 0.0]), kind
    if kind == "negative":
        k = -m.real(0, 30)
        return k, np.array([k, k, 0.0]), kind
    if kind == "zero":
        k = m.pick([0, 0.0])
        return k, np.array([0.0, 0.0, 0.0]), kind
    v = m.rng.uniform(-30, 30, 3)
    if kind == "tuple":
        return tuple(float(x) for x in v), np.array([v[0], v[1], 0]), kind
    if kind == "pair":
        return m.pick([lambda: tuple(float(x) for x in v[:2]), lambda: v[:2].copy()])(), \
            np.array([v[0], v[1], 0]), kind
    if kind == "pairs":
        rows = m.rng.uniform(-30, 30, (m.integer(1, 4), 2))
        return rows, rows.copy(), kind
    if kind == "rows":
        rows = m.rng.uniform(-30, 30, (m.integer(1, 4), 3)).astype(np.float32)
        want = rows.astype(float).copy()
        want[:, 2] = 0
        return rows, want, kind
    if kind == "grid":
        # any number of leading dimensions
        k = m.rng.uniform(-30, 30, tuple(m.integer(1, 4) for _ in range(m.pick([2, 2, 3]))) + (3,))
        want = k.copy()
        want[..., 2] = 0
        return k, want, kind
    return v, np.array([v[0], v[1], 0]), kind


def bind(m, unit, k):
    t = getattr(T, unit)()
    return m.pick([lambda: k * t, lambda: t * k, lambda: t(k)])()


def expected(scale, k, want, kind):
    """Value of the measure: want (pixels per component) scaled along each axis."""
    if kind in ("int", "float", "negative", "zero"):
        return np.asarray(want[0] * scale[0])
    if kind == "pair":
        return want[:2] * np.asarray(scale)[:2]
    if kind == "pairs":
        return want * np.asarray(scale)[:2]
    return want * np.array([scale[0], scale[1], 0])


def resolutions(m):
    """A resolution alone: number of pixels, and how units relate."""
    for unit in UNITS:
        dpi = m.pick(DPI + [m.real(10, 400)])
        k, want, kind = value(m)
        t = bind(m, unit, k)
        got = t.evaluate({"dpi": dpi})
        factor = UNITS[unit](dpi)
        m.close(np.asarray(got) / factor, expected((1, 1), k, want, kind), f"{k} {unit} at {dpi} dpi", 1e-6)
        m.seen("dpi", unit, kind)
        # once more, from another resolution
        dpi2 = m.pick(DPI)
        m.close(np.asarray(t.evaluate({"dpi": dpi2})) / UNITS[unit](dpi2), expected((1, 1), k, want, kind),
                f"{k} {unit} at {dpi2} dpi afterwards", 1e-6)
        m.close(getattr(T, unit)().evaluate({"dpi": dpi}) / factor, 1.0, f"one {unit}", 1e-9)
        m.event("dpi", dpi, unit, kind)
    dpi = m.pick(DPI)
    at = lambda unit, k: float((k * getattr(T, unit)()).evaluate({"dpi": dpi}))
    k = m.real(0.5, 20)
    m.close(at("Inch", k), k * dpi, "inch")
    for unit, per_inch in (("Point", 72), ("Centimeter", 2.54), ("Millimeter", 25.4)):
        m.close(at(unit, k * per_inch), at("Inch", k), f"{unit} against inch", 1e-9)
    m.close(at("Meter", k), at("Centimeter", 100 * k), "metre", 1e-9)
    m.close(at("Kilometer", k), at("Meter", 1000 * k), "kilometre", 1e-9)


def place(m):
    """A canvas, a viewport on it, and the viewport's rectangle as a function of the canvas size."""
    dpi = m.pick(DPI[:-1])
    w, h = m.integer(40, 400), m.integer(40, 400)
    canvas = backend.core.Canvas(w, h, dpi)
    kind = m.pick(["pixels", "fraction", "measure"])
    color = gsp.core.Color(*m.rng.uniform(0, 1, 4).round(3).tolist())
    a, b = m.integer(0, 15), m.integer(0, 15)
    if kind == "pixels":
        vw, vh = m.integer(10, 25), m.integer(10, 25)
        viewport = backend.core.Viewport(canvas, a, b, vw, vh, color)
        size = lambda W, H: (vw, vh)
    elif kind == "fraction":
        fx, fy = m.real(0.2, 1.0), m.real(0.2, 1.0)
        viewport = backend.core.Viewport(canvas, 0.1, 0.2, fx, fy, color)
        size = lambda W, H: (fx * W, fy * H)
    else:
        px = T.Pixel()
        viewport = backend.core.Viewport(canvas, a * px, 0.0, 1.0 - 10 * px, 20 * px, color)
        size = lambda W, H: (W - 10, 20)
    return canvas, viewport, size, kind, dpi, (w, h)


def resize(m, canvas, dpi):
    """The canvas gets another size (as when its window is resized)."""
    w, h = m.integer(40, 400), m.integer(40, 400)
    figure = env.figure(canvas)
    figure.set_size_inches(w / dpi, h / dpi)
    from matplotlib.backend_bases import ResizeEvent
    figure.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", figure.canvas))
    return w, h


def relative(m):
    """Relative to a viewport or a canvas."""
    canvas, viewport, size, kind, dpi, whole = place(m)
    for resized in (False, True):
        if resized:
            whole = resize(m, canvas, dpi)
        w, h = size(*whole)
        unit_per_pixel = 2 / min(w, h)
        for unit in UNITS:
            k, want, form = value(m)
            t = bind(m, unit, k)
            factor = UNITS[unit](dpi)
            # A viewport counts before its canvas
            given = {"viewport": viewport} if m.chance(0.7) else {"viewport": viewport, "canvas": canvas}
            got = np.asarray(t.evaluate(given))
            m.close(got / factor, expected((unit_per_pixel, unit_per_pixel), k, want, form),
                    f"{k} {unit} in a {w}x{h} viewport ({kind})", 1e-5)
            m.seen("viewport", unit, form, kind, resized)
            got = np.asarray(t.evaluate({"canvas": canvas}))
            m.close(got / factor * min(whole), expected((min(whole) / whole[0], min(whole) / whole[1]), k, want, form),
                    f"{k} {unit} in a {whole} canvas", 1e-5)
            side = m.real(10, 500)
            m.close(np.asarray(t.evaluate({"canvas": canvas, "size": (side, side)})) / factor * side,
                    expected((1, 1), k, want, form), f"{k} {unit} with a given size", 1e-5)
            m.seen("canvas", unit, form, resized)
        m.event(kind, (w, h), dpi, resized)
        m.close(viewport.xlim[1] - viewport.xlim[0], 2 * max(1, w / h), "horizontal span", 1e-5)


def drawn(m):
    """Positions offset by measures, drawn."""
    canvas, viewport, size, kind, dpi, whole = place(m)
    n = m.integer(1, 4)
    base = m.rng.uniform(-0.5, 0.5, (n, 3)).astype(np.float32)
    base[:, 2] = np.sort(base[:, 2] + np.arange(n))[::-1]         # painted in order
    unit = m.pick(list(UNITS)[:5])
    factor = UNITS[unit](dpi)
    k, want, form = value(m, drawn=True)
    if form in ("pair", "pairs", "rows"):
        k, want, form = m.real(1, 20), None, "float"
        want = np.array([k, k, 0])
    offset = m.pick(["add", "sub", "radd"])
    t = bind(m, unit, k)
    build = {"add": lambda: t + base, "sub": lambda: T.Sub(base, t), "radd": lambda: base + t}[offset]
    positions = build()
    sign = -1 if offset == "sub" else 1
    visual = m.pick(["Points", "Pixels", "Markers"])
    black = gsp.core.Color(0.0, 0.0, 0.0, 1.0)

    def make(P):
        if visual == "Points":
            return backend.visual.Points(P, 9.0, black, black, 0.0)
        if visual == "Pixels":
            return backend.visual.Pixels(P, black)
        return backend.visual.Markers(P, gsp.core.Marker.square, 9.0, None, 0.0, black, black, 0.0)

    plain, moved = make(base), make(positions)
    plain.render(viewport)
    moved.render(viewport)
    for resized in (False, True):
        if resized:
            whole = resize(m, canvas, dpi)
        outside, inside = draw.split(draw.record(env.figure(canvas)))
        shapes = inside[0][1]
        m.eq(len(shapes), 2 * n, "shapes drawn")
        first = np.array([s.middle for s in shapes[:n]])
        second = np.array([s.middle for s in shapes[n:]])
        shift = sign * want[:2] * factor
        tolerance = 1e-5 * (np.abs(second).max() + 500)
        m.check(np.abs(second - first - shift).max() < tolerance + 0.002,
                f"{visual} moved by {k} {unit} at {dpi} dpi in a {size(*whole)} viewport ({offset}, resized={resized}): "
                f"{(second - first)[0]} pixels, expected {shift}")
        m.seen("drawn", visual, unit, form, offset, kind, resized)
    depth = np.asarray(moved.get_variable("screen[positions]"))[:, 2] - \
        np.asarray(plain.get_variable("screen[positions]"))[:, 2]
    if form in ("tuple", "array", "pair"):
        m.close(depth, np.zeros(n), "depth of positions moved by a measure", 1e-5)
    m.event(visual, unit, form, offset, kind)


def sizes(m):
    """Canvas sizes given as measures."""
    dpi = m.pick(DPI[:-1])
    unit = m.pick(["Pixel", "Inch", "Point", "Centimeter", "Millimeter"])
    k = m.real(40, 200) / UNITS[unit](dpi)
    h = m.integer(30, 99)
    pixels = k * UNITS[unit](dpi)
    if abs(pixels - np.floor(pixels) - 0.5) < 1e-3:
        return
    canvas = backend.core.Canvas(k * getattr(T, unit)(), h, dpi)
    m.close(canvas.size, [round(pixels), h], "size of a canvas given as a measure", 1e-9)
    m.seen("size", unit, dpi)


RANDOM = [(resolutions, 60, 2000), (relative, 80, 1500), (drawn, 90, 2500), (sizes, 20, 300)]
