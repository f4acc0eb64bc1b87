"""C29 — a canvas renders at its exact pixel size and reaches its target."""
import os
import shutil
import tempfile
from io import BytesIO

import numpy as np
from matplotlib.image import imread

from . import draw, scene
from .env import backend, gsp
from .c30 import Layout
from .subject import Sheet, Subject
from .trans import T, UNITS

ID = "C29"
RULE = ("canvases of random sizes (pixels, measures in every unit, expressions) and resolutions with random viewports and "
        "visuals, rendered without target, again, and to image files (names, paths, streams, over existing files), after "
        "resizes too: array shapes, file sizes, equality of the pictures and transparency outside of the viewports; "
        "non-trivial = distinct (form of the sizes, resolution class, number of viewports, target, step) combinations")
MIN = 2500
DPI = [72.0, 100.0, 96.5, 50.0, 150.0, 33.3, 300.0, 120.7, 610.0, 1200.0]


def length(m, dpi):
    """A length as an argument and in pixels."""
    n = m.integer(1, 260) if m.chance(0.85) else m.integer(261, 700)
    form = m.pick(["pixels", "pixels", "measure", "sum"])
    if form == "pixels":
        return n, n, form
    unit = m.pick(sorted(UNITS))
    factor = UNITS[unit](dpi)
    k = float(f"{n / factor:.4g}")
    extra = m.integer(0, 40) if form == "sum" else 0
    total = k * factor + extra
    # Halfway between two sizes either would do
    while abs(total - np.floor(total) - 0.5) < 0.02 or total < 1:
        k += 0.7 / factor
        total = k * factor + extra
    transform = k * getattr(T, unit)()
    if form == "sum":
        transform = transform + extra * T.Pixel()
    return transform, int(round(total)), f"{form} {unit}"


def picture(m, canvas, w, h, label):
    """What rendering returns."""
    image = canvas.render(None)
    m.check(isinstance(image, np.ndarray) and image.dtype == np.uint8, f"{label}: {type(image)} is returned")
    m.eq(image.shape, (h, w, 4), f"{label}: shape of the image")
    return image


def covered(w, h, rects):
    """(pixels no viewport touches, those only)"""
    free = np.ones((h, w), bool)
    for x0, y0, x1, y1 in rects:
        (x0, x1), (y0, y1) = sorted((x0, x1)), sorted((y0, y1))
        a, b = max(0, int(np.floor(x0)) - 1), int(np.ceil(x1)) + 1
        c, d = max(0, int(np.floor(y0)) - 1), int(np.ceil(y1)) + 1
        free[max(0, h - max(0, d)):max(0, h - c), a:max(0, b)] = False
        # The clip box Agg uses for a viewport wholly above (left of) the canvas still has the first row (column)
        if y0 > h - 1:
            free[0] = False
        if x1 < 1:
            free[:, 0] = False
    return free


def canvases(m):
    dpi = m.pick(DPI)
    width, w, first = length(m, dpi)
    height, h, second = length(m, dpi)
    canvas = backend.core.Canvas(width, height, dpi)
    label = f"canvas {w} x {h} ({first}, {second}) at {dpi} dpi"
    m.event(label)
    m.close(np.asarray(canvas.size), [w, h], f"{label}: size")
    sheet = Layout.__new__(Layout)
    sheet.forms, sheet.colors = [], []
    sheet.m, sheet.dpi, sheet.w, sheet.h, sheet.canvas = m, dpi, w, h, canvas
    sheet.viewports, sheet.rects = [], []
    n = m.pick([0, 1, 1, 2, 3])
    folder = tempfile.mkdtemp(prefix="gspv-c29-")
    shown = []
    try:
        for step in range(m.integer(1, 4)):
            if len(sheet.viewports) < n:
                sheet.add()
                if m.chance(0.7):
                    kind = m.pick(["Points", "Pixels", "Segments", "Polygons", "Paths", "Markers"])
                    subject = Subject(m, kind, n=m.integer(1, 8))
                    subject.visual.render(sheet.viewports[-1], *scene.matrices(m))
                    shown.append(subject)
            elif step and m.chance(0.4):
                sheet.resize()
                w, h = sheet.w, sheet.h
                label = f"canvas resized to {w} x {h} at {dpi} dpi"
                m.close(np.asarray(canvas.size), [w, h], f"{label}: size")
            elif step and shown:
                m.pick(shown).modify(m)
            image = picture(m, canvas, w, h, label)
            again = picture(m, canvas, w, h, label)
            m.check(np.array_equal(image, again), f"{label}: rendering again gives other pixels")
            m.check(np.array_equal(image, draw.raster(sheet.figure)), f"{label}: the window shows another picture")
            free = covered(w, h, [sheet.clip(k) for k in range(len(sheet.rects))])
            m.check((image[free][:, 3] == 0).all(), f"{label}: {np.count_nonzero(image[free][:, 3])} of "
                    f"{free.sum()} pixels outside the viewports are not transparent")
            targets(m, canvas, image, folder, label, step)
            m.seen(first.split()[0], second.split()[0], first, dpi, len(sheet.viewports), step)
    finally:
        shutil.rmtree(folder)


def targets(m, canvas, image, folder, label, step):
    """Files show the same picture."""
    name = os.path.join(folder, m.pick(["image.png", "a b.png", "other.PNG", "noextension", f"n{step}.png"]))
    before = os.listdir(folder)
    existed = os.path.exists(name)
    canvas.render(name)
    real = name if os.path.splitext(name)[1] else name + ".png"
    m.check(os.path.exists(real), f"{label}: {os.path.basename(real)} is not written")
    m.eq(sorted(set(before) | {os.path.basename(real)}), sorted(os.listdir(folder)), f"{label}: files written")
    with open(real, "rb") as stream:
        m.eq(stream.read(8), b"\x89PNG\r\n\x1a\n", f"{label}: kind of file")
    got = imread(real, format="png")
    got = np.round(got * 255).astype(np.uint8) if got.dtype.kind == "f" else got
    m.eq(got.shape, image.shape, f"{label}: size of the image written")
    m.check(np.array_equal(got, image), f"{label}: the file shows another picture")
    m.eq(canvas.render(None).tobytes(), image.tobytes(), f"{label}: pixels after writing")
    m.seen("target", os.path.basename(name), existed, step)


def vector(m):
    """Other formats have the same size."""
    from xml.etree import ElementTree
    dpi = m.pick(DPI)
    w, h = m.integer(5, 300), m.integer(5, 300)
    canvas = backend.core.Canvas(w, h, dpi)
    sheet = backend.core.Viewport(canvas, 0, 0, 1.0, 1.0, gsp.core.Color(1., 0., 0., 1.))
    subject = Subject(m, "Points", n=3)
    subject.visual.render(sheet, *scene.matrices(m, "identity"))
    folder = tempfile.mkdtemp(prefix="gspv-c29-")
    try:
        name = os.path.join(folder, "image.svg")
        canvas.render(name)
        root = ElementTree.parse(name).getroot()
        size = [float(root.attrib[k].rstrip("pt")) for k in ("width", "height")]
        m.close(size, [w * 72 / dpi, h * 72 / dpi], f"svg of {w} x {h} at {dpi} dpi, in points", 1e-3)
        name = os.path.join(folder, "image.jpg")
        canvas.render(name)
        m.eq(imread(name).shape[:2], (h, w), "size of a jpg")
    finally:
        shutil.rmtree(folder)
    m.event("vector", w, h, dpi)
    m.seen("vector", dpi)


def independent(m):
    """Canvases do not show each other's contents."""
    sheets = [Sheet(m, 1) for _ in range(2)]
    images = [picture(m, s.canvas, s.w, s.h, "canvas") for s in sheets]
    a = Subject(m, "Points", n=5)
    a.visual.render(sheets[0].viewports[0], *scene.matrices(m, "identity"))
    m.check(np.array_equal(picture(m, sheets[1].canvas, sheets[1].w, sheets[1].h, "other canvas"), images[1]),
            "drawing on a canvas changes another")
    m.eq(canvas_size(sheets[0]), (sheets[0].w, sheets[0].h), "size")
    m.event("independent")
    m.seen("independent", sheets[0].w, sheets[1].w)


def canvas_size(sheet):
    return tuple(int(round(v)) for v in sheet.canvas.size)


RANDOM = [(canvases, 110, 3000), (vector, 15, 300), (independent, 20, 300)]
