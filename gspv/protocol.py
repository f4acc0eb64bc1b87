"""Reference model of the protocol surface, and a generator of protocol calls.

The tables restate the documented protocol (names, parameters in order, defaults); they do
not read them from the code under test.
"""
import numpy as np

from . import env
from .env import Object, backend, gsp

REQUIRED = object()

# class -> (documented creation name, [(parameter, default)])
CORE = {
    "Canvas": ("core.Canvas", [("width", REQUIRED), ("height", REQUIRED), ("dpi", REQUIRED)]),
    "Viewport": ("core.Viewport", [("canvas", REQUIRED), ("x", REQUIRED), ("y", REQUIRED),
                                   ("width", REQUIRED), ("height", REQUIRED), ("color", REQUIRED)]),
    "Buffer": ("core.Buffer", [("count", REQUIRED), ("dtype", REQUIRED), ("data", None)]),
    "Data": ("core.Data", [("uri", ""), ("nbytes", 0), ("dtype", None)]),
    "List": ("core.List", [("data", REQUIRED), ("itemsizes", REQUIRED)]),
}
VISUAL = {
    "Pixels": ["positions", "colors"],
    "Points": ["positions", "sizes", "fill_colors", "line_colors", "line_widths"],
    "Markers": ["positions", "types", "sizes", "axis", "angles", "fill_colors", "line_colors",
                "line_widths"],
    "Segments": ["positions", "line_caps", "line_colors", "line_widths"],
    "Paths": ["positions", "indices", "line_colors", "line_widths", "line_styles", "line_joins",
              "line_caps"],
    "Polygons": ["positions", "indices", "fill_colors", "line_colors", "line_widths",
                 "line_styles", "line_joins"],
}
MEASURES = ["Pixel", "Inch", "Point", "Millimeter", "Centimeter", "Meter", "Kilometer"]
ACCESSORS = ["X", "Y", "Z", "W", "R", "G", "B", "A"]
OPERATORS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/"}


class Call:
    """One protocol call that was made, and what must have been recorded for it."""

    def __init__(self, result, obj, classname, methodname, given, simple=True):
        self.result = result
        self.obj = obj                  # object the call was made on
        self.classname = classname
        self.methodname = methodname
        self.given = given              # parameter -> value
        self.simple = simple            # appends exactly one command

    def __repr__(self):
        return f"{self.classname}.{self.methodname}({', '.join(self.given)})"


def split(m, params, values):
    """Random positional/keyword split of values; defaults may be left out.

    Returns args, kwargs, given (complete parameter -> value)."""
    given = {}
    args, kwargs = [], {}
    positional = True
    eager = m.chance(0.25)          # all that can be are positional
    for name, default in params:
        present = name in values
        if not present:
            given[name] = default
            positional = False
            continue
        given[name] = values[name]
        if positional and (eager or m.chance(0.6)):
            args.append(values[name])
        else:
            positional = False
            kwargs[name] = values[name]
    names = list(kwargs)
    m.rng.shuffle(names)
    return args, {n: kwargs[n] for n in names}, given


def drop_defaults(m, params, values):
    return {n: values[n] for n, d in params if d is REQUIRED or m.chance(0.7)}


class Scripter:
    """Makes random protocol calls with the given package ("core" protocol classes or backend)."""

    def __init__(self, m, package="gsp", convert=True, common=False):
        self.m = m
        self.package = package
        self.common = common            # only calls both packages have, drawn the same way
        self.created = []               # every object made, in order
        self.convert = convert          # also pass arguments that need a conversion
        self.core = gsp.core if package == "gsp" else backend.core
        self.visual = gsp.visual if package == "gsp" else backend.visual
        self.canvases, self.viewports, self.buffers = [], [], []
        self.visuals, self.transforms, self.lists, self.datas = [], [], [], []
        self.colormaps, self.operators = [], []
        self.made = 0

    # -- argument material --------------------------------------------
    def _call(self, cls, params, values, methodname):
        if not self.common:
            values = drop_defaults(self.m, params, values)
        args, kwargs, given = split(self.m, params, values)
        obj = cls(*args, **kwargs)
        self.created.append(obj)
        return Call(obj, obj, cls.__name__, methodname, given)

    def _buffer(self, n, dtype, data):
        buffer = self.core.Buffer(n, dtype, data)
        self.created.append(buffer)
        return buffer

    def color(self):
        rgba = [self.m.real(0, 1) for _ in range(4)]
        kind = self.m.integer(0, 2) if self.convert else 0
        if kind == 0:
            return gsp.core.Color(*rgba)
        return rgba if kind == 1 else tuple(rgba)

    def array(self, n, k):
        a = self.m.rng.uniform(-1, 1, (n, k) if k > 1 else n)
        return a.astype(self.m.pick([np.float32, np.float64]))

    def bufferize(self, n, k):
        """Something usable as a Buffer of n items of k components."""
        if self.convert and self.m.chance(0.5):
            a = self.array(n, k)
            return a.reshape(n, 2, 3) if k == 6 else a
        a = np.ascontiguousarray(self.array(n, k), dtype=np.float32)
        buffer = self._buffer(n, a.dtype, a.data)
        return buffer

    def attribute(self, n, k=1):
        if self.m.chance(0.6):
            return round(self.m.real(0.5, 9), 3) if k == 1 else self.color()
        a = np.ascontiguousarray(self.m.rng.uniform(0.05, 1, (n, k) if k > 1 else n), np.float32)
        if self.convert and self.m.chance(0.5):
            return a
        return self._buffer(n, a.dtype, a.data)

    def matrix(self):
        if self.m.chance(0.25):
            return None
        a = self.m.rng.uniform(-2, 2, (4, 4))
        return a if self.convert and self.m.chance(0.6) else gsp.core.Matrix(a.astype(np.float32))

    # -- calls ----------------------------------------------------------
    def canvas(self):
        m = self.m
        values = {"width": m.integer(10, 300), "height": m.integer(10, 300),
                  "dpi": round(m.real(30, 200), 2)}
        c = self._call(self.core.Canvas, CORE["Canvas"][1], values, "core.Canvas")
        self.canvases.append(c.result)
        return c

    def viewport(self):
        m = self.m
        if not self.canvases:
            return self.canvas()
        number = lambda: m.pick([m.integer(0, 50), round(m.real(0.1, 1), 3)])
        values = {"canvas": m.pick(self.canvases), "x": number(), "y": number(),
                  "width": number(), "height": number(), "color": self.color()}
        if not values["width"]:
            values["width"] = 0.5
        if not values["height"]:
            values["height"] = 0.5
        c = self._call(self.core.Viewport, CORE["Viewport"][1], values, "core.Viewport")
        self.viewports.append(c.result)
        return c

    def buffer(self):
        m = self.m
        n = m.integer(1, 8)
        a = m.rng.integers(0, 255, n * 4, dtype=np.uint8)
        dtype = m.pick([np.dtype(np.float32), np.dtype(np.int32), np.dtype("<u2"),
                        np.dtype([("x", np.float32), ("y", np.uint8, 4)])])
        data = m.rng.integers(0, 255, n * dtype.itemsize, dtype=np.uint8)
        data = m.pick([data.tobytes(), memoryview(data.tobytes()), data.data])
        values = {"count": n, "dtype": dtype, "data": data}
        c = self._call(self.core.Buffer, CORE["Buffer"][1], values, "core.Buffer")
        if c.given["data"] is not None:
            self.buffers.append((c.result, n * dtype.itemsize))
        return c

    def set_data(self):
        m = self.m
        if not self.buffers:
            return self.buffer()
        buffer, size = m.pick(self.buffers)
        offset = m.integer(0, size - 1)
        data = memoryview(m.rng.integers(0, 255, m.integer(1, size - offset), dtype=np.uint8).tobytes())
        args, kwargs, given = split(m, [("offset", REQUIRED), ("data", REQUIRED)],
                                    {"offset": offset, "data": data})
        result = buffer.set_data(*args, **kwargs)
        return Call(result, buffer, "Buffer", "set_data", given)

    def data(self):
        m = self.m
        values = {"uri": m.pick(["", "file://a", "http://x/y"]), "nbytes": m.integer(0, 99),
                  "dtype": m.pick([[], [["x", "f4", 1]], None,
                                   [["x", "f4", 1]] * m.integer(2, 9), ["a", "b", "a"] * m.integer(1, 3)])}
        c = self._call(gsp.core.Data, CORE["Data"][1], values, "core.Data")
        self.datas.append(c.result)
        return c

    def data_set_data(self):
        m = self.m
        if not self.datas:
            return self.data()
        target = m.pick(self.datas)
        args, kwargs, given = split(m, [("offset", REQUIRED), ("data", REQUIRED)],
                                    {"offset": m.integer(0, 9), "data": bytes([1, 2, m.integer(0, 255)])})
        return Call(target.set_data(*args, **kwargs), target, "Data", "set_data", given)

    def list(self):
        m = self.m
        n = m.integer(1, 4)
        sizes = m.rng.integers(1, 4, n).astype(np.int32)
        items = np.arange(int(sizes.sum()), dtype=np.int32)
        data = self._buffer(len(items), items.dtype, items.data)
        itemsizes = self._buffer(n, sizes.dtype, sizes.data) if m.chance() else 1
        c = self._call(self.core.List, CORE["List"][1], {"data": data, "itemsizes": itemsizes},
                       "core.List")
        self.lists.append(c.result)
        return c

    def visual_create(self):
        m = self.m
        name = m.pick(VISUAL)
        items = n = m.integer(2, 6)
        size = 1
        if name in ("Paths", "Polygons") and m.chance():
            items, size = 1, n
        material = {
            "positions": lambda: self.bufferize(n, 6 if name == "Segments" else 3),
            "types": lambda: m.pick([gsp.core.Marker.star, gsp.core.Marker.heart]),
            "sizes": lambda: self.attribute(items),
            "axis": lambda: None,
            "angles": lambda: round(m.real(-180, 180), 2),
            "fill_colors": lambda: self.attribute(items, 4),
            "line_colors": lambda: self.attribute(items, 4),
            "colors": lambda: self.attribute(items, 4),
            "line_widths": lambda: self.attribute(items),
            "line_caps": lambda: m.pick(list(gsp.core.LineCap)),
            "line_joins": lambda: m.pick(list(gsp.core.LineJoin)),
            "line_styles": lambda: m.pick(list(gsp.core.LineStyle)),
            "indices": lambda: size,
        }
        params = [(p, REQUIRED) for p in VISUAL[name]]
        values = {p: material[p]() for p in VISUAL[name]}
        c = self._call(getattr(self.visual, name), params, values, "visual." + name)
        self.visuals.append(c.result)
        return c

    def render(self):
        m = self.m
        if not self.viewports:
            return self.viewport()
        if not self.visuals:
            return self.visual_create()
        visual = m.pick(self.visuals)
        viewport = m.pick(self.viewports)
        values = {"viewport": viewport}
        for name in ("model", "view", "proj"):
            if m.chance(0.7):
                values[name] = self.matrix() if self.package == "gsp" or self.common else np.eye(4)
        params = [("viewport", REQUIRED), ("model", None), ("view", None), ("proj", None)]
        args, kwargs, given = split(m, params, values)
        result = visual.render(*args, **kwargs)
        return Call(result, visual, type(visual).__name__, "render", given)

    def canvas_render(self):
        if self.package != "gsp" or not self.canvases:
            return self.canvas()
        canvas = self.m.pick(self.canvases)
        target = self.m.pick(["a.png", "dir/b.pdf", None])
        return Call(canvas.render(target), canvas, "Canvas", "render", {"target": target})

    def viewport_render(self):
        if self.package != "gsp" or not self.viewports:
            return self.viewport()
        viewport = self.m.pick(self.viewports)
        return Call(viewport.render(target="v.png"), viewport, "Viewport", "render",
                    {"target": "v.png"})

    def transform(self):
        m = self.m
        T = gsp.transform
        kind = m.integer(0, 6)
        if kind == 0:
            c = self._call(getattr(T, m.pick(MEASURES)), [], {}, None)
        elif kind == 1:
            name = m.pick(ACCESSORS)
            c = self._call(getattr(T, name), [("buffer", None)], self._operand("buffer"), None)
        elif kind == 2:
            values = {"key": m.pick(["x", "color", "a"])} | self._operand("buffer")
            c = self._call(T.Accessor, [("buffer", None), ("key", None)], values, None)
        elif kind == 3:
            c = self._call(T.Out, [("name", None)], {"name": m.pick(["screen[positions].x", "sizes"])}, None)
        elif kind == 4:
            values = {"colormap": m.pick(["magma", "viridis", "gray"]),
                      "vmin": m.pick([0.0, -1.5]), "vmax": m.pick([1.0, 20.0])}
            c = self._call(T.Colormap, [("colormap", None), ("vmin", None), ("vmax", None)], values, None)
            self.colormaps.append(c.result)
        elif kind == 5:
            name = m.pick(OPERATORS)
            values = {"left": m.pick([1, 2.5]), "right": m.pick([3, 0.25])}
            c = self._call(getattr(T, name), [("left", None), ("right", None)], values, None)
            self.operators.append(c.result)
        else:
            values = {"operator": m.pick("+-*/"), "left": 1, "right": m.pick([3, 0.25])}
            c = self._call(T.Operator, [("operator", REQUIRED), ("left", None), ("right", None)], values, None)
            self.operators.append(c.result)
        c.methodname = "transform." + c.classname
        self.transforms.append(c.result)
        return c

    def _operand(self, name):
        if self.buffers and self.m.chance(0.5):
            return {name: self.m.pick(self.buffers)[0]}
        if self.transforms and self.m.chance(0.3):
            return {name: self.m.pick(self.transforms)}
        return {name: self._buffer(2, np.dtype(np.float32), memoryview(bytes(8)))}

    def setter(self):
        """One of the documented modification calls on a transform."""
        m = self.m
        if not self.transforms:
            return self.transform()
        target = m.pick(self.transforms)
        kind = m.integer(0, 4)
        if kind == 0 and self.colormaps:
            target = m.pick(self.colormaps)
            name, param, value = "set_colormap", "colormap", m.pick(["plasma", "gray"])
        elif kind == 1 and self.operators:
            target = m.pick(self.operators)
            name, param, value = m.pick([("set_left", "left", 4), ("set_right", "right", 0.5),
                                         ("set_operator", "operator", "-")])
        elif kind == 2 and not self.common:       # would allow cycles
            other = self.m.pick(self.transforms)
            name, param, value = "set_next", "next", None if other is target else other
        elif kind == 3:
            name, param, value = "set_base", "base", m.pick([None, target])
        else:
            name, param, value = "set_buffer", "buffer", m.pick([None, 3, 1.5])
        default = REQUIRED if name in ("set_colormap", "set_left", "set_right", "set_operator") else None
        args, kwargs, given = split(m, [(param, default)], {param: value})
        return Call(getattr(target, name)(*args, **kwargs), target, type(target).__name__, name, given)

    ALL = ["canvas", "viewport", "viewport", "buffer", "set_data", "data", "data_set_data", "list",
           "visual_create", "visual_create", "visual_create", "render", "render", "canvas_render",
           "viewport_render", "transform", "transform", "transform", "setter", "setter"]

    COMMON = [name for name in ALL if name not in ("data", "data_set_data", "canvas_render",
                                                   "viewport_render")]

    def step(self):
        self.made += 1
        return getattr(self, self.m.pick(self.COMMON if self.common else self.ALL))()


def resolve(value):
    """Value of a recorded parameter (delayed conversions are performed)."""
    if not callable(value):
        return value
    with env.quiet():
        return value()


def same_content(recorded, given):
    """Does the recorded value stand for the given argument?"""
    if recorded is given:
        return True
    value = resolve(recorded)
    if isinstance(value, Object) or isinstance(given, Object):
        if value is given:
            return True
        if isinstance(given, Object):
            return False
        got = np.asarray(value)
        want = np.ascontiguousarray(given)
        return got.size == want.size and got.tobytes() == want.tobytes()
    if isinstance(value, gsp.core.Matrix):
        return np.allclose(np.asarray(value).ravel(), np.asarray(given, dtype=float).ravel(), atol=1e-6)
    if isinstance(given, (list, tuple)) and isinstance(value, (list, tuple)):
        return list(value) == list(given)
    if isinstance(value, (bytes, memoryview)) and isinstance(given, (bytes, memoryview)):
        return bytes(value) == bytes(given)
    if isinstance(value, np.ndarray) or isinstance(given, np.ndarray):
        return np.array_equal(value, given)
    return type(value) is type(given) and value == given


def check_command(m, command, call):
    """The recorded command states exactly that call."""
    m.eq(command.classname, call.classname, f"class recorded for {call}")
    m.eq(command.methodname, call.methodname, f"method recorded for {call}")
    parameters = dict(command.parameters)
    m.check("id" in parameters, f"{call}: no object id recorded")
    m.eq(int(parameters.pop("id")), int(call.obj.id), f"{call}: object id")
    expected = {}
    for name, value in call.given.items():
        expected[name + "(id)" if isinstance(value, Object) else name] = value
    m.eq(sorted(parameters), sorted(expected), f"{call}: parameter names")
    for name, value in expected.items():
        if isinstance(value, Object):
            m.eq(int(parameters[name]), int(value.id), f"{call}: reference {name}")
        else:
            m.check(same_content(parameters[name], value),
                    f"{call}: parameter {name} recorded as {parameters[name]!r}, given {value!r}")
