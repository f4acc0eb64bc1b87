"""Observation of what the matplotlib backend draws.

A figure is drawn through a recording renderer: every path that would reach the pixels is logged with
its vertices in pixels, colours, line width, clip rectangle and the viewport it belongs to, in painting
order. Rasters are read from the Agg canvas.
"""
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import RendererBase


class Shape:
    """One path drawn: vertices in pixels from the bottom left."""

    def __init__(self, axes, group, vertices, codes, fill, stroke, width, clip, snap=None, cap=None):
        self.axes = axes            # index of the viewport, in order of creation
        self.group = group          # kind of artist
        self.vertices = vertices
        self.codes = codes
        self.fill = fill            # rgba, or None
        self.stroke = stroke        # rgba
        self.width = width          # line width in pixels
        self.clip = clip            # x0, y0, x1, y1 or None
        self.snap = snap            # True, False, or None where the renderer chooses
        self.cap = cap              # line cap: butt, round or projecting

    def __repr__(self):
        return (f"<{self.group} in {self.axes}: {len(self.vertices)} vertices around "
                f"{np.round(np.nanmean(self.vertices, axis=0), 3)}, fill {self.fill}, stroke {self.stroke} "
                f"x {self.width:.3f}>")

    @property
    def box(self):
        return self.vertices.min(axis=0), self.vertices.max(axis=0)

    @property
    def middle(self):
        low, high = self.box
        return (low + high) / 2


class Recorder(RendererBase):
    def __init__(self, width, height, dpi):
        super().__init__()
        self.width, self.height, self.dpi = width, height, dpi
        self.shapes = []
        self.groups = []
        self.axes = -1

    def get_canvas_width_height(self):
        return self.width, self.height

    def points_to_pixels(self, points):
        return points * self.dpi / 72

    def open_group(self, s, gid=None):
        if s == "axes" or s.startswith("axes_"):
            self.axes += 1
        self.groups.append(s)

    def close_group(self, s):
        self.groups.pop()

    def draw_path(self, gc, path, transform, rgbFace=None):
        path = path.transformed(transform)
        clip = gc.get_clip_rectangle()
        fill = None
        if rgbFace is not None:
            fill = tuple(float(c) for c in rgbFace)
            if len(fill) == 3:
                fill += (float(gc.get_alpha()),)
        stroke = tuple(float(c) for c in gc.get_rgb())
        width = float(self.points_to_pixels(gc.get_linewidth()))
        inside = any(g == "axes" or g.startswith("axes_") for g in self.groups)
        self.shapes.append(Shape(self.axes if inside else None, self.groups[-1] if self.groups else "",
                                 np.array(path.vertices, dtype=float),
                                 None if path.codes is None else tuple(int(c) for c in path.codes),
                                 fill, stroke, width,
                                 None if clip is None else tuple(float(x) for x in clip.extents),
                                 gc.get_snap(), str(gc.get_capstyle())))

    def draw_image(self, *args, **kwargs):
        self.shapes.append(Shape(self.axes, "image", np.zeros((1, 2)), None, None, (0, 0, 0, 0), 0, None))

    def draw_text(self, *args, **kwargs):
        self.shapes.append(Shape(self.axes, "text", np.zeros((1, 2)), None, None, (0, 0, 0, 0), 0, None))


def figures():
    """Open figures, in order of creation."""
    return [plt.figure(n) for n in sorted(plt.get_fignums())]


def record(figure):
    """Everything the figure draws, in painting order."""
    width, height = figure.get_size_inches() * figure.dpi
    renderer = Recorder(width, height, figure.dpi)
    figure.draw(renderer)
    return renderer.shapes


def split(shapes):
    """(shapes outside viewports, {viewport: (background, [contents])})."""
    outside, inside = [], {}
    for shape in shapes:
        if shape.axes is None:
            outside.append(shape)
        elif shape.group in ("patch", "") or shape.group.startswith("axes"):
            inside.setdefault(shape.axes, [None, []])[0] = shape
        else:
            inside.setdefault(shape.axes, [None, []])[1].append(shape)
    return outside, inside


def raster(figure):
    """RGBA pixels (first row at the top), as integers."""
    figure.canvas.draw()
    return np.asarray(figure.canvas.buffer_rgba()).copy()


def same_shape(a, b, tol=1e-6):
    if a.axes != b.axes or a.group != b.group or a.codes != b.codes or (a.fill is None) != (b.fill is None):
        return False
    if a.vertices.shape != b.vertices.shape or (a.clip is None) != (b.clip is None) \
            or a.snap != b.snap or a.cap != b.cap:
        return False
    close = lambda x, y, s: np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True)
    return (close(a.vertices, b.vertices, 100) and close(a.stroke, b.stroke, 1) and close(a.width, b.width, 1)
            and (a.fill is None or close(a.fill, b.fill, 1))
            and (a.clip is None or close(a.clip, b.clip, 100)))


def difference(first, second, tol=1e-6):
    """None if both logs show the same picture, else what differs."""
    if len(first) != len(second):
        return f"{len(first)} shapes instead of {len(second)}"
    for i, (a, b) in enumerate(zip(first, second)):
        if not same_shape(a, b, tol):
            return f"shape {i}: {a!r} instead of {b!r}"
    return None
