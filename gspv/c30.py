"""C30 — a viewport covers exactly its rectangle of the canvas."""
import numpy as np

from . import draw, scene
from .env import backend, gsp
from .subject import KINDS, Sheet, Subject, compare
from .trans import T, UNITS

ID = "C30"
RULE = ("one to four viewports on a canvas, every side in any of its forms (pixels, fractions, measures in all units, "
        "expressions), overlapping or not, with visuals, over sequences of resizes: background outlines, pixels, sizes, "
        "limits, clipping and drawn positions against rectangles computed from the definition; non-trivial = "
        "distinct (forms of the sides, number of viewports, step) combinations")
MIN = 6000
DPI = [72.0, 100.0, 96.5, 50.0, 150.0, 33.3, 300.0]


def side(m, dpi, low, high, forms=("pixels", "fraction", "measure", "sum", "difference")):
    """A coordinate or length as an argument, as a function of the canvas length, its form; low, high are fractions."""
    form = m.pick(forms)
    part = m.real(low, high)
    if form == "fraction":
        if low <= 0 <= high and m.chance(0.2) or low <= 1 <= high and m.chance(0.2):
            part = 0.0 if low <= 0 else 1.0
        return part, (lambda L: part * L), form
    n = int(round(part * 150)) or (0 if low <= 0 else 3)
    if form == "pixels":
        if n == 0 and low > 0:
            n = 5
        return n, (lambda L: n), form
    unit = m.pick(sorted(UNITS))
    factor = UNITS[unit](dpi)
    k = float(f"{max(n, 1) / factor:.4g}")
    given = k * getattr(T, unit)() if m.chance(0.5) else getattr(T, unit)() * k
    if form == "measure":
        return given, (lambda L: k * factor), f"measure {unit}"
    if form == "sum":
        f = round(part * 0.6, 3) if low > 0 else round(m.real(0, 0.3), 3)
        k2 = k * 0.5
        given = f + k2 * getattr(T, unit)() if m.chance(0.5) else k2 * getattr(T, unit)() + f
        return given, (lambda L: f * L + k2 * factor), f"sum {unit}"
    f = round(max(low, 0.3) + 0.4, 3)
    j = m.integer(1, 12)
    given = f - j * T.Pixel()
    return given, (lambda L: f * L - j), "difference"


def rectangle(m, dpi):
    parts = [side(m, dpi, 0.0, 0.5), side(m, dpi, 0.0, 0.5), side(m, dpi, 0.15, 0.7), side(m, dpi, 0.15, 0.7)]
    if m.chance(0.15):
        parts = [(0, lambda L: 0, "zero"), (0, lambda L: 0, "zero"), (1.0, lambda L: L, "full"), (1.0, lambda L: L, "full")]
        if m.chance(0.4):
            parts[0] = parts[1] = 0.0, (lambda L: 0), "zero"
    elif m.chance(0.2):     # partly or wholly outside of the canvas
        k = m.integer(0, 1)
        f = m.pick([1.0, m.real(1, 1.6), -m.real(0, 0.5)])
        n = -m.integer(1, 60)
        parts[k] = m.pick([(f, lambda L: f * L, "beyond"), (n, lambda L: n, "before")])
    elif m.chance(0.1):     # larger than the canvas
        k = m.integer(2, 3)
        f = round(m.real(1, 2.5), 3)
        parts[k] = f, lambda L: f * L, "larger"
    x, y, w, h = [p[1] for p in parts]
    return tuple(p[0] for p in parts), (lambda W, H: (x(W), y(H), w(W), h(H))), tuple(p[2].split()[0] for p in parts)


class Layout(Sheet):
    def __init__(self, m, viewports, dpi=None):
        self.forms, self.colors = [], []
        super().__init__(m, viewports, dpi or m.pick(DPI))

    def add(self, opaque=None):
        m = self.m
        box, rect, forms = rectangle(m, self.dpi)
        while min(rect(self.w, self.h)[2:]) < 0.5:      # 70% of ten pixels minus seven is not a viewport
            box, rect, forms = rectangle(m, self.dpi)
        c = [round(m.real(0, 1), 3) for _ in range(4)]
        if m.chance(0.5) if opaque is None else opaque:
            c[3] = 1.0
        form = m.pick([lambda: gsp.core.Color(*c), lambda: gsp.core.Color(*c), lambda: tuple(c), lambda: list(c)])
        self.viewports.append(backend.core.Viewport(self.canvas, *box, form()))
        self.rects.append(rect)
        self.forms.append(forms)
        self.colors.append(c)


def limits(w, h):
    return (w / h, 1) if w > h else (1, h / w)


def layout(m, sheet, label):
    """Everything about the viewports alone."""
    shapes = sheet.shapes()
    m.eq(sorted(shapes), list(range(len(sheet.viewports))), f"{label}: viewports drawn")
    for k, viewport in enumerate(sheet.viewports):
        x, y, w, h = sheet.rect(k)
        text = f"{label}: viewport {k} {sheet.forms[k]} at {sheet.rect(k)}"
        background = shapes[k][0]
        low, high = background.box
        m.close([*low, *high], [x, y, x + w, y + h], f"{text}: rectangle drawn")
        if background.fill is None:
            m.eq(sheet.colors[k][3], 0, f"{text}: opacity of a background that is not drawn")
        else:
            m.close(background.fill, sheet.colors[k], f"{text}: background colour")
        m.close(viewport.size, [w, h], f"{text}: size")
        X, Y = limits(w, h)
        m.close(viewport.xlim, [-X, X], f"{text}: extent along x")
        m.close(viewport.ylim, [-Y, Y], f"{text}: extent along y")
    return shapes


def image(m, sheet, label):
    """The pixels of viewports without contents."""
    got = draw.raster(sheet.figure).astype(float) / 255
    m.eq(got.shape[:2], (sheet.h, sheet.w), f"{label}: size of the image")
    got = got[::-1]
    X, Y = np.meshgrid(np.arange(sheet.w) + 0.5, np.arange(sheet.h) + 0.5)
    color = np.zeros((sheet.h, sheet.w, 3))
    alpha = np.zeros((sheet.h, sheet.w))
    sure = np.ones((sheet.h, sheet.w), bool)
    for k in range(len(sheet.viewports)):
        x, y, w, h = sheet.rect(k)
        edges = [x, y, x + w, y + h]
        margin = 1e-6 if all(abs(e - round(e)) < 1e-6 for e in edges) else 1.01
        inside = (X > x + margin) & (X < x + w - margin) & (Y > y + margin) & (Y < y + h - margin)
        outside = (X < x - margin) | (X > x + w + margin) | (Y < y - margin) | (Y > y + h + margin)
        sure &= inside | outside
        c = np.array(sheet.colors[k])
        total = c[3] + alpha * (1 - c[3])
        mix = (c[:3] * c[3] + color * (alpha * (1 - c[3]))[..., None]) / np.maximum(total, 1e-9)[..., None]
        color[inside], alpha[inside] = mix[inside], total[inside]
    error = np.abs(got[..., 3] - alpha)[sure]
    m.check(not error.size or error.max() < 0.02, f"{label}: {np.count_nonzero(error > 0.02)} pixels are covered "
            f"otherwise ({sheet.forms}, {[sheet.rect(k) for k in range(len(sheet.rects))]})")
    clear = sure & (alpha > 0.3)
    error = np.abs(got[..., :3] - color)[clear]
    m.check(not error.size or error.max() < 0.04, f"{label}: {np.count_nonzero(error > 0.04)} pixels have another "
            f"colour ({sheet.forms}, {sheet.colors})")
    m.count("image")
    return sure


def layouts(m):
    sheet = Layout(m, m.integer(1, 4))
    for step in range(m.integer(1, 5)):
        label = f"canvas {sheet.w} x {sheet.h} at {sheet.dpi} dpi, step {step}"
        m.event(label, sheet.forms)
        layout(m, sheet, label)
        image(m, sheet, label)
        for forms in sheet.forms:
            m.seen("layout", forms, len(sheet.forms), min(step, 1))
        what = m.pick(["resize", "resize", "add", "render", "back"])
        if what == "add" and len(sheet.viewports) < 5:
            sheet.add()
        elif what == "render":
            sheet.canvas.render(None)
        elif what == "back":
            w, h = sheet.w, sheet.h
            sheet.resize()
            layout(m, sheet, label + " resized")
            sheet.w, sheet.h = w, h
            sheet.figure.set_size_inches(w / sheet.dpi, h / sheet.dpi)
            fire(sheet)
        else:
            sheet.resize()


def fire(sheet):
    from matplotlib.backend_bases import ResizeEvent
    sheet.figure.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", sheet.figure.canvas))


def contents(m):
    """What is drawn in a viewport is in its coordinates and clipped to it, after resizes too."""
    sheet = Layout(m, m.integer(1, 3))
    kind = m.pick(KINDS)
    subject = Subject(m, kind, n=m.integer(1, 6))
    k = m.integer(0, len(sheet.viewports) - 1)
    matrices = scene.matrices(m)
    subject.visual.render(sheet.viewports[k], *matrices)
    for step in range(m.integer(1, 3)):
        label = f"{kind} in viewport {sheet.forms[k]} of {sheet.w} x {sheet.h} at {sheet.dpi} dpi, step {step}"
        shapes = layout(m, sheet, label)
        compare(m, subject, subject.expected(matrices, sheet.rect(k), sheet.dpi), shapes[k][1], label, sheet.clip(k))
        for j in shapes:
            if j != k:
                m.eq(len(shapes[j][1]), 0, f"{label}: shapes in viewport {j}")
        m.seen("contents", kind, sheet.forms[k], min(step, 1))
        m.event(label)
        sheet.resize()


def clipping(m):
    """A polygon larger than the viewport fills it and nothing else."""
    sheet = Layout(m, 0)
    sheet.add(opaque=True)
    viewport = sheet.viewports[0]
    r = m.real(3, 6)
    # Much larger than any extent
    P = np.array([[-r, -r, 0], [r, -r, 0], [r, r, 0], [-r, r, 0]], np.float32) * 40
    color = [round(m.real(0, 1), 3) for _ in range(3)] + [1.0]
    visual = backend.visual.Polygons(P, 4, gsp.core.Color(*color), gsp.core.Color(*color), 0.0, gsp.core.LineStyle.solid,
                                     gsp.core.LineJoin.round)
    eye = np.eye(4, dtype=np.float32)
    visual.render(viewport, eye, eye, eye)
    for step in range(2):
        sheet.colors[0] = color
        image(m, sheet, f"filled viewport {sheet.forms[0]} of {sheet.w} x {sheet.h}, step {step}")
        m.seen("clip", sheet.forms[0], step)
        m.event("clip", sheet.forms[0], sheet.rect(0))
        sheet.resize()


def circle(m):
    """Equal lengths are drawn equal along both directions."""
    sheet = Layout(m, 1)
    a = np.linspace(0, 2 * np.pi, 24, endpoint=False)
    r = m.real(0.2, 1)
    P = np.c_[r * np.cos(a), r * np.sin(a), 0 * a].astype(np.float32)
    visual = backend.visual.Polygons(P, 24, gsp.core.Color(1., 0., 0., 1.), gsp.core.Color(1., 0., 0., 1.), 0.0,
                                     gsp.core.LineStyle.solid, gsp.core.LineJoin.round)
    eye = np.eye(4, dtype=np.float32)
    visual.render(sheet.viewports[0], eye, eye, eye)
    for step in range(3):
        x, y, w, h = sheet.rect(0)
        (shape,) = sheet.shapes()[0][1]
        d = np.hypot(*(shape.vertices - [x + w / 2, y + h / 2]).T)
        m.close(d, np.full(len(d), r * min(w, h) / 2), f"circle of radius {r} in {sheet.forms[0]} {w} x {h}", 1e-4)
        m.seen("circle", sheet.forms[0], step)
        m.event("circle", w, h, r)
        sheet.resize()


RANDOM = [(layouts, 150, 4000), (contents, 100, 3000), (clipping, 30, 600), (circle, 30, 600)]
