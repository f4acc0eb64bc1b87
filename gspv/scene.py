"""Random scenes, made with the same calls and the same draws for either package."""
import numpy as np

from .env import backend, glm, gsp

T = gsp.transform


def matrices(m, kind=None):
    """model, view and projection matrices (float32 values), w stays positive."""
    given = affine(m, kind)
    if m.chance(0.25):
        # The same transformations, as other homogeneous matrices
        given = tuple(np.asarray(M, np.float32) * np.float32(m.real(0.4, 2.5)) for M in given)
    return given


def affine(m, kind=None):
    kind = kind or m.pick(["identity", "affine", "ortho", "perspective", "camera", "mixed"])
    eye = np.eye(4, dtype=np.float32)
    rotation = (glm.xrotate(m.real(-180, 180)) @ glm.yrotate(m.real(-180, 180)) @ glm.zrotate(m.real(-180, 180)))
    scale = glm.scale([m.real(0.3, 1.2) for _ in range(3)])
    shift = glm.translate([m.real(-0.5, 0.5) for _ in range(3)])
    if kind == "identity":
        return eye, eye, eye
    if kind == "affine":
        return (shift @ rotation @ scale), eye, eye
    if kind == "ortho":
        return rotation, glm.translate((0, 0, -3)), glm.ortho(-1.5, 1, -1, 1.5, 1, 10)
    if kind == "perspective":
        return rotation @ scale, glm.translate((m.real(-0.3, 0.3), 0, -5)), glm.perspective(m.real(15, 60), m.real(0.5, 2), 1, 100)
    if kind == "camera":
        return eye, eye, glm.camera(m.real(0, 90), m.real(0, 90), m.real(0.3, 1.2), m.pick(["perspective", "ortho"]))
    return rotation, shift @ glm.translate((0, 0, -6)), glm.frustum(-0.4, 0.6, -0.5, 0.7, 2, 50)


def color(m):
    return gsp.core.Color(*[round(m.real(0, 1), 4) for _ in range(4)])


class Scene:
    """Builds a scene with the classes of one package.

    The draws of random numbers do not depend on the package."""

    KINDS = ["Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"]

    def __init__(self, m, package, transforms=True, tracked=True, kinds=None):
        self.m = m
        self.core = gsp.core if package == "gsp" else backend.core
        self.visual = gsp.visual if package == "gsp" else backend.visual
        self.transforms = transforms
        self.tracked = tracked
        self.kinds = kinds or self.KINDS
        self.canvases, self.viewports, self.visuals = [], [], []
        self.arrays = []            # tracked arrays in use
        self.features = set()

    # -- attributes -----------------------------------------------------
    def array(self, values):
        """The values in one of the forms an attribute may have."""
        m = self.m
        kind = m.pick(["array", "buffer", "list", "tracked", "view"] if self.tracked else ["array", "buffer", "list"])
        self.features.add(kind)
        values = np.ascontiguousarray(values)
        if kind == "list" and values.shape[-1] == 4 and values.ndim == 2:
            kind = "array"      # a list is recorded as one colour
        if kind == "list":
            return values.tolist()
        if kind == "array":
            return values
        if kind == "buffer":
            buffer = self.core.Buffer(len(values), values.dtype if values.ndim == 1 else
                                      np.dtype((values.dtype, values.shape[1:])), values.tobytes())
            return buffer
        names = {(np.dtype(np.float32), 3): glm.vec3, (np.dtype(np.float32), 4): glm.vec4}
        maker = names.get((values.dtype, values.shape[-1] if values.ndim == 2 else 0))
        if maker:
            Z = maker(len(values))
            Z[...] = values
        else:
            Z = values.view(glm.ndarray.tracked)
        if kind == "view":
            Z = Z[:]
        self.arrays.append((Z, 0 if values.ndim == 2 and values.shape[1] == 4 else -1))
        return Z

    def positions(self, n, shape=None):
        m = self.m
        values = m.rng.uniform(-0.9, 0.9, (n, 3)).astype(np.float32)
        if shape == "segments":
            Z = self.m.pick([values.reshape(n // 2, 2, 3), values.reshape(n // 2, 2, 3)])
            if m.chance(0.4):
                self.features.add("buffer")
                return self.core.Buffer(n // 2, np.dtype((np.float32, (2, 3))) if m.chance() else np.dtype(np.float32),
                                        Z.tobytes())
            return Z
        if self.transforms and m.chance(0.2):
            self.features.add("measure")
            k = np.array([m.real(-20, 20), m.real(-20, 20), 0])
            unit = getattr(T, m.pick(["Pixel", "Point", "Millimeter"]))()
            return m.pick([lambda: T.Add(values, unit(tuple(float(x) for x in k))), lambda: unit(k) + values,
                           lambda: T.Sub(values, unit(m.real(1, 9))), lambda: values + m.real(1, 9) * unit])()
        return self.array(values)

    def colors(self, n):
        m = self.m
        kind = m.integer(0, 4)
        if kind == 0:
            return color(m)
        if kind == 1:
            return [m.real(0, 1) for _ in range(4)] if m.chance() else tuple(color(m))
        if kind == 2 and self.transforms and n is not None:
            self.features.add("colormap")
            vmin, vmax = m.pick([(None, None), (0.0, 1.0), (-1.0, 2.0), (0.25, 0.75)])
            out = T.Out("screen[positions]" + m.pick([".x", ".y", ".z"]))
            if m.chance(0.3):
                out = out * m.pick([0.5, 2.0]) + 0.25
            return T.Colormap(m.pick(["magma", "viridis", "gray"]), vmin, vmax)(out)
        return self.array(m.rng.uniform(0, 1, (self.items, 4)).astype(np.float32))

    def scalars(self, n, low, high, out=True):
        m = self.m
        kind = m.integer(0, 3)
        if kind == 0:
            return round(m.real(low, high), 3)
        if kind == 1 and out and self.transforms and n is not None:
            self.features.add("scalar transform")
            return T.Out("screen[positions]." + m.pick("xyz")) * m.pick([0.5, 1.5]) + (high + 3)
        return self.array(m.rng.uniform(low, high, self.items).astype(np.float32))

    # -- objects ----------------------------------------------------------
    def canvas(self):
        m = self.m
        dpi = m.pick([72.0, 100.0, 96.5])
        canvas = self.core.Canvas(m.integer(60, 160), m.integer(60, 160), dpi)
        self.canvases.append(canvas)
        self.features.add("canvas")

    def viewport(self):
        m = self.m
        canvas = m.pick(self.canvases)
        kind = m.integer(0, 3)
        if kind == 0:
            box = [m.integer(0, 30), m.integer(0, 30), m.integer(20, 60), m.integer(20, 60)]
        elif kind == 1:
            box = [round(m.real(0, 0.5), 3) for _ in range(2)] + [round(m.real(0.2, 0.5), 3) for _ in range(2)]
        elif kind == 2 or not self.transforms:
            box = [0, 0, 1.0, 1.0]
        else:
            self.features.add("measured viewport")
            px = T.Pixel()
            box = [10 * px, 1.0 / T.Mul(1.0, 8.0) if False else 0.125, 1.0 - 20 * px, 0.5]
        viewport = self.core.Viewport(canvas, *box, color(m))
        self.viewports.append(viewport)

    def visual_create(self):
        m = self.m
        kind = m.pick(self.kinds)
        n = m.integer(2, 7)
        self.items = n
        out = n
        V = self.visual
        self.features.add(kind)
        if kind == "Pixels":
            visual = V.Pixels(self.positions(n), self.colors(out))
        elif kind == "Points":
            visual = V.Points(self.positions(n), self.scalars(out, 4, 90), self.colors(out), self.colors(out),
                              self.scalars(out, 0.2, 3))
        elif kind == "Markers":
            types = m.pick([gsp.core.Marker.star, gsp.core.Marker.heart, gsp.core.Marker.club, "each"])
            if types == "each":
                types = self.array(np.array([int(m.pick(list(gsp.core.Marker))) for _ in range(n)], dtype=np.int32))
            visual = V.Markers(self.positions(n), types, self.scalars(out, 10, 90), None,
                               self.scalars(None, -180, 180), self.colors(out), self.colors(out),
                               self.scalars(out, 0.2, 3))
        elif kind == "Segments":
            visual = V.Segments(self.positions(2 * n, "segments"), m.pick(list(gsp.core.LineCap)),
                                self.colors(None), self.scalars(None, 0.3, 6))
        else:
            size = m.integer(2, 4) if kind == "Paths" else m.integer(3, 5)
            count = m.integer(1, 4)
            form = m.pick(["size", "sizes", "list of sizes", "lists"])
            self.features.add(kind + " " + form)
            self.items = count
            if form == "size":
                indices, total = size, size * count
            elif form in ("sizes", "list of sizes"):
                sizes = m.rng.integers(size, size + 3, count).astype(np.int32)
                total = int(sizes.sum())
                indices = self.array(sizes) if form == "sizes" else [int(s) for s in sizes]
            else:
                total = m.integer(5, 9)
                indices, weights = [], set()
                while len(indices) < count:
                    item = [m.integer(0, total - 1) for _ in range(m.integer(size, size + 2))]
                    # Items of the same mean depth have no defined order
                    weight = tuple(round(item.count(k) / len(item), 6) for k in range(total))
                    if weight not in weights:
                        weights.add(weight)
                        indices.append(item)
            positions = self.positions(total)
            if kind == "Paths":
                visual = V.Paths(positions, indices, self.colors(None), self.scalars(None, 0.3, 6),
                                 gsp.core.LineStyle.solid, gsp.core.LineJoin.round, m.pick(list(gsp.core.LineCap)))
            else:
                visual = V.Polygons(positions, indices, self.colors(None), self.colors(None),
                                    self.scalars(None, 0.3, 6), gsp.core.LineStyle.solid, gsp.core.LineJoin.round)
        self.visuals.append(visual)

    def render(self):
        m = self.m
        visual, viewport = m.pick(self.visuals), m.pick(self.viewports)
        model, view, proj = matrices(m)
        form = m.integer(0, 3)
        if form == 0:
            visual.render(viewport, model, view, proj)
        elif form == 1:
            visual.render(viewport, proj=proj, model=model, view=view)
        elif form == 2:
            visual.render(viewport)
        else:
            visual.render(viewport, model=model)
        self.features.add(f"render {form}")

    def update(self):
        """In-place modification of a tracked array in use."""
        m = self.m
        if not self.arrays:
            return self.render()
        Z, kind = m.pick(self.arrays)
        self.features.add("update")
        i = m.integer(0, len(Z) - 1)
        form = m.integer(0, 3)
        if np.asarray(Z).dtype.kind == "i":
            Z[i] = Z[i]
        elif kind == 0:
            Z[i] = m.rng.uniform(0, 1, 4)
        elif form == 0:
            Z *= 0.5
        elif form == 1:
            Z[i] = np.asarray(Z)[i] * 0.75
        elif form == 2:
            Z[i:] = np.asarray(Z)[i:] * 0.9
        else:
            Z[::2] = np.asarray(Z)[::2] * 0.8

    STEPS = ["viewport", "visual_create", "render", "render", "update", "visual_create"]

    def play(self, steps):
        m = self.m
        self.canvas()
        if m.chance(0.2):
            self.canvas()
        self.viewport()
        self.visual_create()
        self.render()
        for _ in range(steps):
            getattr(self, m.pick(self.STEPS))()
        self.render()
        return self

