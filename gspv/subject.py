"""Visuals with known content, and what they have to look like.

A Subject builds one backend visual from random data in random forms and keeps its own copy of that data. From it, and
from the definitions (projection times view times model, perspective division, view coordinates of the viewport), it
computes what has to be drawn: one Drawn per item, in painting order.
"""
import numpy as np

from . import draw
from . import env
from .env import backend, glm, gsp
from .trans import UNITS

T = gsp.transform
Marker = gsp.core.Marker
CAPS = {gsp.core.LineCap.butt: "butt", gsp.core.LineCap.round: "round", gsp.core.LineCap.cap: "projecting"}
KINDS = ["Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"]


def combined(matrices):
    model, view, proj = (np.asarray(M, dtype=float).reshape(4, 4) for M in matrices)
    return proj @ view @ model


def project(P, matrices):
    """Positions after projection and perspective division."""
    P = np.asarray(P, float)
    if P.shape[-1] == 2:
        P = np.concatenate([P, np.zeros(P.shape[:-1] + (1,))], axis=-1)
    H = np.concatenate([P, np.ones(P.shape[:-1] + (1,))], axis=-1) @ combined(matrices).T
    return H[..., :3] / H[..., 3:]


def pixels(Q, rect):
    """View coordinates to pixels: one unit is half of the shorter side."""
    x, y, w, h = rect
    return np.asarray(Q)[..., :2] * min(w, h) / 2 + [x + w / 2, y + h / 2]


class Drawn:
    """What one item has to look like."""

    def __init__(self, item, middle=None, vertices=None, fill=None, stroke=None, width=None, size=None, depth=0.0):
        self.item, self.middle, self.vertices = item, middle, vertices
        self.fill, self.stroke, self.width, self.size, self.depth = fill, stroke, width, size, depth


class Subject:
    """A visual made from known data."""

    def __init__(self, m, kind=None, n=None, flat=True, computed=None, separate=True,
                 moved=0.0, away=None):
        self.m = m
        self.away = away        # where the positions are (origin of the scene)
        self.moved = moved      # how often positions are moved by a measure
        self.unit, self.offset = None, None
        self.cap = None
        self.kind = kind or m.pick(KINDS)
        self.n = n or m.pick([1, 2, 3, 4, 5, 7, 12, m.integer(1, 30)])
        self.given = {}         # objects given to the visual
        self.values = {}        # own copy of the data (per item)
        self.computed = computed or {}
        self.forms = set()
        self.flat = flat
        self.make()

    # -- data in one of its forms ------------------------------------------
    def form(self, name, values, forms=("array", "double", "buffer", "tracked", "view", "list", "flat buffer")):
        """The values as an attribute; remembers the object given."""
        m = self.m
        how = m.pick(forms)
        values = np.ascontiguousarray(values)
        self.forms.add(how)
        if how == "array":
            obj = values.copy()
        elif how == "double":
            obj = values.astype(np.float64) if values.dtype.kind == "f" else values.copy()
        elif how == "list":
            obj = values.tolist()
            if m.chance(0.3):
                obj = tuple(tuple(v) if isinstance(v, list) else v for v in obj)
        elif how == "buffer":
            dtype = values.dtype if values.ndim == 1 else np.dtype((values.dtype, values.shape[1:]))
            obj = backend.Buffer(len(values), dtype, values.tobytes())
        elif how == "flat buffer":
            obj = backend.Buffer(len(values), values.dtype, values.tobytes())
            if values.ndim > 2:     # items of several rows
                obj = backend.Buffer(len(values), np.dtype((values.dtype, values.shape[1:])), values.tobytes())
        else:
            maker = {(2, 2): glm.vec2, (2, 3): glm.vec3, (2, 4): glm.vec4}.get(
                (values.ndim, values.shape[-1] if values.ndim else 0))
            if maker and values.dtype == np.float32:
                obj = maker(len(values))
                obj[...] = values
            else:
                obj = values.copy().view(glm.ndarray.tracked)
            if how == "view":
                whole = np.concatenate([values, values]).view(glm.ndarray.tracked)
                cut = m.integer(0, len(values))
                obj = whole[cut:cut + len(values)]
                obj[...] = values
        self.given[name] = obj
        return obj

    def place(self, n, flat=None):
        """Positions of n vertices."""
        m = self.m
        flat = m.chance(0.15) if flat is None else flat
        P = m.rng.uniform(-0.95, 0.95, (n, 2 if flat and self.flat else 3)).astype(np.float32)
        if m.chance(0.1):
            P *= 3      # partly outside
        if self.away is not None:
            P = P.astype(float) + self.away[:P.shape[-1]]
        elif P.shape[-1] == 3 and m.chance(0.1):
            # Depths that single precision cannot tell
            P = P.astype(float)
            P[:, 2] = m.real(-0.5, 0.5) + m.pick([1e-9, 1e-12]) * m.rng.permutation(n)
        return P

    def color(self, name, count):
        m = self.m
        if name in self.computed:
            self.values[name] = None
            return self.computed[name]
        how = m.pick(["uniform", "each", "each", "each"])
        if how == "uniform":
            c = np.round(m.rng.uniform(0.05, 1, 4), 4)
            self.values[name] = np.repeat(c[None], count, axis=0)
            self.forms.add("uniform")
            floats = [float(x) for x in c]
            forms = [gsp.core.Color(*floats), floats, tuple(floats)]
            # One color as an array or a buffer of its channels, also where there are as many items as channels
            forms += [np.array(floats), np.array(floats, np.float32).view(glm.ndarray.tracked),
                      backend.Buffer(4, np.dtype("f8"), np.array(floats).tobytes())]
            if count != 1:
                forms.append(np.array([floats]))
            return m.pick(forms)
        c = m.rng.uniform(0.05, 1, (count, 4)).astype(np.float32)
        self.values[name] = c.astype(float)
        return self.form(name, c)

    def scalar(self, name, count, low, high):
        m = self.m
        if name in self.computed:
            self.values[name] = None
            return self.computed[name]
        if m.chance(0.25):
            x = round(m.real(low, high), 4)
            self.values[name] = np.full(count, x)
            self.forms.add("uniform")
            return x
        v = m.rng.uniform(low, high, count).astype(np.float32)
        self.values[name] = v.astype(float)
        if m.chance(0.15):
            return self.form(name, v[:, None], ("array", "double", "tracked"))
        return self.form(name, v)

    def move(self, positions):
        """The positions, maybe moved by a measure."""
        m = self.m
        if not m.chance(self.moved) or isinstance(positions, (list, tuple)):
            return positions
        self.unit = m.pick(["Pixel", "Inch", "Point", "Millimeter"])
        self.offset = np.array([m.real(-2, 2), m.real(-2, 2)]) * {"Inch": 0.01, "Millimeter": 0.3}.get(self.unit, 1)
        given = [float(x) for x in self.offset] + [0.0] * (self.values["positions"].shape[-1] - 2)
        measure = getattr(T, self.unit)()(tuple(given))
        self.forms.add("moved")
        kind = m.integer(0, 2)
        if kind == 2:
            self.offset = -self.offset
            return T.Sub(positions, measure)
        return T.Add(measure, positions) if kind else T.Add(positions, measure)

    # -- the visual ----------------------------------------------------------
    def make(self):
        m, V, n, kind = self.m, backend.visual, self.n, self.kind
        if kind in ("Pixels", "Points", "Markers"):
            P = self.place(n)
            self.values["positions"] = P.astype(float)
            positions = self.move(self.form("positions", P))
        if kind == "Pixels":
            self.visual = V.Pixels(positions, self.color("colors", n))
        elif kind == "Points":
            self.visual = V.Points(positions, self.scalar("sizes", n, 4, 200), self.color("fill_colors", n),
                                   self.color("line_colors", n), self.scalar("line_widths", n, 0.2, 4))
        elif kind == "Markers":
            types = np.array([int(m.pick(list(Marker))) for _ in range(n)], dtype=np.int32)
            if m.chance(0.3):
                types[:] = types[0]
                given = m.pick([Marker(int(types[0])), Marker(int(types[0]))])
            else:
                given = self.form("types", types, ("array", "buffer", "tracked", "list"))
            self.values["types"] = types
            self.visual = V.Markers(positions, given, self.scalar("sizes", n, 10, 300), None,
                                    self.scalar("angles", n, -400, 400), self.color("fill_colors", n),
                                    self.color("line_colors", n), self.scalar("line_widths", n, 0.2, 4))
        elif kind == "Segments":
            P = self.place(2 * n, False).reshape(n, 2, 3)
            self.values["positions"] = P.astype(float)
            positions = self.move(self.form("positions", P, ("array", "double", "buffer", "tracked", "list")))
            cap = m.pick(list(gsp.core.LineCap))
            self.cap = CAPS[cap]
            self.visual = V.Segments(positions, cap, self.color("line_colors", n),
                                     self.scalar("line_widths", n, 0.3, 8))
        else:
            self.partition()
            total = self.total
            # As many items as vertices would make an attribute ambiguous
            P = self.place(total)
            self.values["positions"] = P.astype(float)
            positions = self.move(self.form("positions", P))
            line = (self.color("line_colors", n), self.scalar("line_widths", n, 0.3, 8))
            if kind == "Paths":
                cap = m.pick(list(gsp.core.LineCap))
                self.cap = CAPS[cap]
                self.visual = V.Paths(positions, self.indices, *line, gsp.core.LineStyle.solid, gsp.core.LineJoin.round,
                                      cap)
            else:
                self.visual = V.Polygons(positions, self.indices, self.color("fill_colors", n), *line,
                                         gsp.core.LineStyle.solid, gsp.core.LineJoin.round)

    def partition(self, form=None):
        """Which vertices make item i."""
        m, n = self.m, self.n
        low = 2 if self.kind == "Paths" else 3
        form = form or m.pick(["size", "sizes", "list of sizes", "lists", "lists"])
        more = 0 if m.chance(0.9) else m.integer(5, 30)
        self.forms.add(form)
        if form == "size":
            size = m.integer(low, low + 3) + more
            self.total = n * size
            self.members = [list(range(i * size, (i + 1) * size)) for i in range(n)]
            self.indices = size
        elif form in ("sizes", "list of sizes"):
            sizes = [m.integer(low, low + 4 + more) for _ in range(n)]
            self.total = sum(sizes)
            starts = np.concatenate([[0], np.cumsum(sizes)])
            self.members = [list(range(starts[i], starts[i + 1])) for i in range(n)]
            dtype = m.pick([np.int32, np.int64, np.uint32, np.uint8])
            self.indices = sizes if form == "list of sizes" else \
                self.form("indices", np.array(sizes, dtype), ("array", "buffer", "tracked"))
        else:
            self.total = m.integer(low, 3 * n + low)
            self.members = [[m.integer(0, self.total - 1) for _ in range(m.integer(low, low + 4 + more))]
                            for _ in range(n)]
            if m.chance(0.4):       # consecutive ones given as lists
                self.members = [sorted(k) for k in self.members]
            self.indices = [list(k) for k in self.members]
            if m.chance(0.3):
                flat = np.array([k for item in self.members for k in item], np.int32)
                sizes = np.array([len(item) for item in self.members], np.int32)
                self.indices = backend.List(backend.Buffer(len(flat), flat.dtype, flat.tobytes()),
                                            backend.Buffer(len(sizes), sizes.dtype, sizes.tobytes()))
                self.forms.add("List")
        if self.total == n:
            # Per-item attributes could be taken for per-vertex ones; either means the same here, n items
            pass

    # -- the model -------------------------------------------------------------
    def screen(self, matrices, rect=None, dpi=None):
        """Projected coordinates of the vertices."""
        P = self.values["positions"]
        if self.unit:
            P = P.copy()
            P[..., :2] += self.offset * UNITS[self.unit](dpi) * 2 / min(rect[2:])
        return project(P, matrices)

    def depths(self, matrices, rect=None, dpi=None):
        Q = self.screen(matrices, rect, dpi)[..., 2]
        if self.kind == "Segments":
            return Q.mean(axis=1)
        if self.kind in ("Paths", "Polygons"):
            return np.array([Q[k].mean() for k in self.members])
        return Q

    def value(self, name, i, matrices):
        v = self.values[name]
        if v is None:
            v = self.evaluated(name, matrices)
        return v[i]

    def evaluated(self, name, matrices):
        raise NotImplementedError(name)

    def expected(self, matrices, rect, dpi):
        """Items in painting order: the farthest first."""
        depths = self.depths(matrices, rect, dpi)
        order = np.argsort(-depths, kind="stable")
        Q = self.screen(matrices, rect, dpi)
        get = lambda name, i: np.array(self.value(name, i, matrices))
        out = []
        for i in order:
            i = int(i)
            d = Drawn(i, depth=float(depths[i]))
            if self.kind in ("Pixels", "Points", "Markers"):
                d.middle = pixels(Q[i], rect)
                if self.kind == "Pixels":
                    d.fill = get("colors", i)
                else:
                    d.fill, d.stroke = get("fill_colors", i), get("line_colors", i)
                    d.width = float(get("line_widths", i)) * dpi / 72
                    d.size = np.sqrt(float(get("sizes", i))) * dpi / 72
                if self.kind == "Markers":
                    V = np.asarray(Marker.path(Marker(int(self.values["types"][i]))).vertices, float)
                    a = np.radians(float(get("angles", i)))
                    V = V / (2 * np.abs(V).max()) * d.size
                    d.vertices = V @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]]) + d.middle
            else:
                d.stroke, d.width = get("line_colors", i), float(get("line_widths", i)) * dpi / 72
                d.vertices = pixels(Q[i] if self.kind == "Segments" else Q[self.members[i]], rect)
                if self.kind == "Polygons":
                    d.fill = get("fill_colors", i)
            out.append(d)
        return out

    def modify(self, m):
        """In-place modification of data in use (as a user would); False if there is none."""
        names = [k for k, v in self.given.items() if k not in ("types", "indices") and not isinstance(v, (list, tuple))]
        if not names:
            return None
        name = m.pick(names)
        obj, values = self.given[name], self.values[name]
        i = m.integer(0, len(values) - 1)
        if name == "positions":
            new = m.rng.uniform(-0.9, 0.9, values[i].shape)
        elif "color" in name:
            new = m.rng.uniform(0.05, 1, 4)
        else:
            new = np.asarray(m.real(5, 8))
        new = new.astype(np.float32)
        if isinstance(obj, backend.Buffer):
            size = np.asarray(obj).nbytes // len(obj)
            obj.set_data(i * size, new.astype(np.asarray(obj).dtype).tobytes())
        elif m.chance(0.3):
            obj[i:i + 1] = new
        else:
            obj[i] = new
        values[i] = new.astype(float)
        return name


def compare(m, subject, drawn, shapes, label, clip=None, order=True):
    """Check the shapes of one visual in one viewport against what has to be drawn."""
    m.eq(len(shapes), len(drawn), f"{label}: number of shapes")
    tied = np.array([d.depth for d in drawn])
    if len(tied) > 1 and np.abs(np.diff(tied)).min() < 1e-5:
        m.count("tie")
        shapes = untie(subject.kind, drawn, shapes, tied)
    for d, s in zip(drawn, shapes):
        one(m, subject.kind, d, s, f"{label}: item {d.item}", clip)
        m.check(subject.cap is None or s.cap == subject.cap, f"{label}: item {d.item}: line cap {s.cap}, expected {subject.cap}")
    return True


def place_of(kind, item):
    if kind in ("Pixels", "Points"):
        return np.asarray(item.middle, float)
    V = np.asarray(item.vertices, float)
    if kind == "Polygons" and len(V) > 1 and getattr(item, "codes", None) is not None and item.codes[-1] == 79:
        V = V[:-1]
    return V.mean(axis=0)


def unlike(kind, d, s):
    """How much a shape differs from an item."""
    e = 0.0
    if kind not in ("Pixels", "Points"):
        V = s.vertices
        if kind == "Polygons" and s.codes is not None and s.codes[-1] == 79 or \
                kind == "Polygons" and len(V) == len(d.vertices) + 1 and near(V[-1], V[0], 1e-6):
            V = V[:-1]
        n = min(len(d.vertices), len(V))
        e += np.abs(d.vertices[:n] - V[:n]).max() + 100 * (len(d.vertices) != len(V))
    else:
        e += np.abs(np.asarray(s.middle) - d.middle).max()
    if d.fill is not None and s.fill is not None:
        e += np.abs(np.asarray(s.fill) - d.fill).max()
    if d.width is not None:
        e += abs(s.width - d.width)
        if d.width > 0:
            e += np.abs(np.asarray(s.stroke) - d.stroke).max()
    return e


def untie(kind, drawn, shapes, depth):
    """The shapes with those of items of (nearly) the same depth, that have no order, put in the order of the items."""
    shapes = list(shapes)
    ends = np.flatnonzero(np.abs(np.diff(depth)) >= 1e-5) + 1
    for start, stop in zip([0, *ends], [*ends, len(drawn)]):
        if stop - start < 2:
            continue
        group = shapes[start:stop]
        # Items may be at the same place: their looks tell them
        looks = lambda d, like: np.concatenate([place_of(kind, d), *[
            np.zeros(4) if a is None or b is None else np.asarray(a, float) for a, b in
            ((d.fill, like.fill), (d.stroke, like.width or None))], [0 if like.width is None else d.width]])
        like = drawn[start]
        places = np.array([looks(s, like) for s in group])
        free = np.ones(len(group), bool)
        for i in range(start, stop):
            distance = np.abs(places - looks(drawn[i], like)).max(axis=1)
            distance[~free] = np.inf
            close = [j for j in np.argsort(distance, kind="stable")[:4] if free[j]]
            best = min(close, key=lambda j: unlike(kind, drawn[i], group[j]))
            free[best] = False
            shapes[i] = group[best]
    return shapes


def near(a, b, tol):
    return bool(np.abs(np.asarray(a, float) - np.asarray(b, float)).max() <= tol)


def one(m, kind, d, s, label, clip=None, tol=5e-3, shade=2e-5):
    """Check one shape."""
    m.count("shape")
    scale = max(1.0, float(np.abs(d.vertices if d.middle is None else d.middle).max()) / 200)
    if kind in ("Pixels", "Points"):
        m.check(near(s.middle, d.middle, tol * scale), f"{label}: drawn at {s.middle}, expected {d.middle}")
        if kind == "Points":
            low, high = s.box
            m.check(near(high - low, [d.size] * 2, 1e-3 * max(1, d.size)),
                    f"{label}: diameter {high - low}, expected {d.size}")
        else:
            low, high = s.box
            m.check(0.1 < (high - low).max() <= 1.5, f"{label}: a pixel of size {high - low}")
    else:
        V = s.vertices
        if kind == "Polygons" and len(V) == len(d.vertices) + 1:
            m.check(near(V[-1], V[0], 1e-6) or s.codes is not None and s.codes[-1] == 79, f"{label}: closed outline")
            V = V[:-1]
        m.check(len(V) == len(d.vertices) and near(V, d.vertices, tol * scale),
                f"{label}: vertices {V.tolist()}, expected {np.asarray(d.vertices).tolist()}")
    if d.fill is not None:
        m.check(s.fill is not None and near(s.fill, d.fill, shade), f"{label}: filled with {s.fill}, expected {d.fill}")
    elif kind in ("Segments", "Paths"):
        m.check(s.fill is None or s.fill[3] == 0, f"{label}: filled with {s.fill}")
    if d.width is not None:
        m.check(abs(s.width - d.width) < 1e-4 * max(1, d.width), f"{label}: line width {s.width}, expected {d.width}")
        if d.width > 0:
            m.check(near(s.stroke, d.stroke, shade), f"{label}: line colour {s.stroke}, expected {d.stroke}")
    if kind in ("Segments", "Paths", "Polygons"):
        m.check(s.snap is False, f"{label}: vertices rounded to pixels")
    if clip is not None:
        m.check(s.clip is not None and near(s.clip, clip, 1e-3), f"{label}: clipped to {s.clip}, expected {clip}")


class Sheet:
    """A canvas with viewports whose rectangles are known."""

    def __init__(self, m, viewports=1, dpi=None):
        self.m = m
        self.dpi = dpi or m.pick([72.0, 100.0, 96.5, 50.0, 150.0, m.pick([12.0, 30.0, 240.0])])
        self.w, self.h = m.integer(60, 240), m.integer(60, 240)
        self.canvas = backend.core.Canvas(self.w, self.h, self.dpi)
        self.viewports, self.rects, self.boxes = [], [], []
        for _ in range(viewports):
            self.add()

    def add(self):
        m = self.m
        box, rect = self.rectangle(m)
        color = gsp.core.Color(*[round(m.real(0, 1), 3) for _ in range(4)])
        self.viewports.append(backend.core.Viewport(self.canvas, *box, color))
        self.rects.append(rect)
        self.boxes.append(box)

    def rectangle(self, m):
        """A rectangle as arguments, and in pixels given the size of the canvas."""
        kind = m.pick(["full", "pixels", "fraction", "measure"])
        if kind == "full":
            return (0, 0, 1.0, 1.0), lambda W, H: (0, 0, W, H)
        if kind == "pixels":
            x, y, w, h = m.integer(0, 40), m.integer(0, 40), m.integer(15, 90), m.integer(15, 90)
            return (x, y, w, h), lambda W, H: (x, y, w, h)
        if kind == "fraction":
            x, y, w, h = m.real(0, 0.4), m.real(0, 0.4), m.real(0.2, 0.6), m.real(0.2, 0.6)
            return (x, y, w, h), lambda W, H: (x * W, y * H, w * W, h * H)
        px = T.Pixel()
        a, b, c = m.integer(1, 12), m.integer(1, 12), m.integer(20, 60)
        return (a * px, 0.25, 1.0 - 2 * a * px, c * px), lambda W, H: (a, 0.25 * H, W - 2 * a, c)

    def rect(self, k):
        return tuple(float(v) for v in self.rects[k](self.w, self.h))

    def clip(self, k):
        x, y, w, h = self.rect(k)
        return x, y, x + w, y + h

    @property
    def figure(self):
        return env.figure(self.canvas)

    def resize(self):
        """The canvas gets another size, as when its window is resized."""
        from matplotlib.backend_bases import ResizeEvent
        m = self.m
        self.w, self.h = m.integer(60, 240), m.integer(60, 240)
        self.figure.set_size_inches(self.w / self.dpi, self.h / self.dpi)
        self.figure.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", self.figure.canvas))

    def shapes(self):
        """{viewport: (background, contents)} of what the canvas draws."""
        outside, inside = draw.split(draw.record(self.figure))
        self.m.check(not [s for s in outside if s.fill is not None and s.fill[3] > 0 or s.width and s.stroke[3] > 0
                          and s.group != "patch" and s.group != "figure"],
                     f"something is drawn outside the viewports: {outside}")
        return inside
