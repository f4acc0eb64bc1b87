"""C34 — paths and polygons follow their partition, in every form of it."""
import numpy as np

from . import draw, scene
from . import env
from .env import backend, glm, gsp
from .subject import Sheet, Subject, compare

ID = "C34"
RULE = ("random vertex sets and partitions, each drawn in every form the partition has (a size, a list, array, buffer or "
        "tracked array of sizes, lists of indices, a List), with per-item and uniform attributes: item by item against "
        "the stated vertices, and the forms against each other; non-trivial = distinct (visual, forms, attribute forms, "
        "matrices) combinations")
MIN = 3000


class Parts(Subject):
    """A subject whose partition is given."""

    def __init__(self, m, kind, members, total, form, like=None):
        self.members, self.total, self.wanted = members, total, form
        self.like = like
        super().__init__(m, kind, n=len(members))

    def partition(self):
        m, form = self.m, self.wanted
        sizes = [len(k) for k in self.members]
        self.forms.add(form)
        integer = m.pick([np.int32, np.int64, np.uint8, np.uint32])
        if integer == np.uint8 and max(max(sizes), self.total) > 255:
            integer = np.uint16
        if form == "size":
            self.indices = sizes[0]
        elif form == "list of sizes":
            self.indices = list(sizes)
        elif form == "array of sizes":
            self.indices = np.array(sizes, integer)
        elif form == "buffer of sizes":
            self.indices = backend.Buffer(len(sizes), np.dtype(integer), np.array(sizes, integer).tobytes())
        elif form == "tracked sizes":
            self.indices = np.array(sizes, integer).view(glm.ndarray.tracked)
        elif form == "lists":
            self.indices = [list(k) for k in self.members]
        elif form == "List":
            flat = np.array([i for k in self.members for i in k], integer)
            self.indices = backend.List(backend.Buffer(len(flat), flat.dtype, flat.tobytes()),
                                        backend.Buffer(len(sizes), np.dtype(np.int32), np.array(sizes, np.int32).tobytes()))
        else:       # List of items of one size
            flat = np.array([i for k in self.members for i in k], integer)
            self.indices = backend.List(backend.Buffer(len(flat), flat.dtype, flat.tobytes()), sizes[0])

    def place(self, n, flat=None):
        P = super().place(n, flat)
        return self.like if self.like is not None else P


def forms(m):
    kind = m.pick(["Paths", "Polygons"])
    low = 2 if kind == "Paths" else 3
    if m.chance(0.3):
        low = m.integer(1, low)     # too few to draw, the others stay as they are
    n = m.pick([1, 2, 3, 4, 6, m.integer(1, 20)])
    style = m.pick(["equal", "various", "indirect", "indirect equal"])
    if style in ("equal", "indirect equal"):
        sizes = [m.integer(low, low + 3)] * n
    else:
        sizes = [m.integer(low, low + 5) for _ in range(n)]
    if m.chance(0.06):      # more vertices, or more items, than fit in small integers
        if m.chance() and style in ("various", "indirect"):
            sizes[m.integer(0, n - 1)] = m.integer(256, 600)
        else:
            n = m.integer(257, 1500)
            sizes = [sizes[i % len(sizes)] for i in range(n)]
    starts = np.concatenate([[0], np.cumsum(sizes)])
    total = int(starts[-1])
    if style.startswith("indirect"):
        total = max(2, m.integer(low, total + 3))
        members = [[m.integer(0, total - 1) for _ in range(k)] for k in sizes]
        able = ["lists", "List"] + (["List of one size"] if style == "indirect equal" else [])
    else:
        members = [list(range(starts[i], starts[i + 1])) for i in range(n)]
        able = ["list of sizes", "array of sizes", "buffer of sizes", "tracked sizes", "lists", "List"]
        if m.chance(0.3):       # vertices left over belong to no item
            total += m.integer(0, min(sizes) - 1)
        if style == "equal":
            able += ["size", "size", "List of one size"]
    name = m.pick(["identity", "affine", "perspective", "camera", "mixed"])
    matrices = scene.matrices(m, name)
    chosen = [str(f) for f in m.rng.permutation(able)[:3]]
    logs = []
    # The same draws for every form
    state = m.rng.bit_generator.state
    sheet = Sheet(m, 1)
    P = m.rng.uniform(-0.95, 0.95, (total, m.pick([3, 3, 3, 2]))).astype(np.float32)
    rest = m.rng.bit_generator.state
    for form in chosen:
        m.rng.bit_generator.state = rest
        subject = Parts(m, kind, members, total, form, P)
        sheet.add()
        sheet.rects[-1] = sheet.rects[0]
        sheet.viewports[-1] = backend.core.Viewport(sheet.canvas, *sheet.boxes[0], gsp.core.Color(0., 0., 0., 1.))
        subject.visual.render(sheet.viewports[-1], *matrices)
        label = f"{kind} given as {form} ({style}, {sorted(subject.forms)}, {name})"
        shapes = draw.split(draw.record(sheet.figure))[1]
        last = max(shapes)
        drawn = subject.expected(matrices, sheet.rect(0), sheet.dpi)
        clear = compare(m, subject, drawn, shapes[last][1], label, sheet.clip(0))
        m.event(label)
        if clear:
            m.seen(kind, form, style, name, tuple(sorted(subject.forms)))


def same(m):
    """The three forms of one partition draw one picture."""
    kind = m.pick(["Paths", "Polygons"])
    n, size = m.integer(1, 8), m.integer(3, 5)
    P = m.rng.uniform(-0.9, 0.9, (n * size, 3)).astype(np.float32)
    colors = m.rng.uniform(0.1, 1, (n, 4)).astype(np.float32)
    widths = m.rng.uniform(0.5, 5, n).astype(np.float32)
    members = [list(range(i * size, (i + 1) * size)) for i in range(n)]
    matrices = scene.matrices(m)
    logs = []
    for indices in (size, [size] * n, members, np.full(n, size)):
        sheet = Sheet.__new__(Sheet)
        canvas = backend.core.Canvas(120, 100, 100.0)
        viewport = backend.core.Viewport(canvas, 0, 0, 1.0, 1.0, gsp.core.Color(1., 1., 1., 1.))
        style = (gsp.core.LineStyle.solid, gsp.core.LineJoin.round)
        if kind == "Paths":
            visual = backend.visual.Paths(P, indices, colors, widths, *style, gsp.core.LineCap.round)
        else:
            visual = backend.visual.Polygons(P, indices, colors[::-1].copy(), colors, widths, *style)
        visual.render(viewport, *matrices)
        logs.append(draw.record(env.figure(canvas)))
    for other in logs[1:]:
        trouble = draw.difference(other, logs[0])
        m.check(trouble is None, f"forms of one partition of {kind} ({n} of {size}): {trouble}")
    m.eq(len(draw.split(logs[0])[1][0][1]), n, "number of items")
    m.event("same", kind, n, size)
    m.seen("same", kind, n, size)


RANDOM = [(forms, 200, 6000), (same, 50, 1500)]
