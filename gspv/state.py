"""Observable state of GSP objects, as plain nested lists that can be compared."""
import numpy as np

from .env import Object, backend, gsp

Transform = gsp.transform.Transform
IN_VARIABLES = {
    "Pixels": ["positions", "colors"],
    "Points": ["positions", "sizes", "fill_colors", "line_colors", "line_widths"],
    "Markers": ["positions", "types", "sizes", "axis", "angles", "fill_colors", "line_colors", "line_widths"],
    "Segments": ["positions", "line_caps", "line_colors", "line_widths"],
    "Paths": ["positions", "indices", "line_colors", "line_widths", "line_styles", "line_joins", "line_caps"],
    "Polygons": ["positions", "indices", "fill_colors", "line_colors", "line_widths", "line_styles",
                 "line_joins"],
}
VARIABLES = {
    "dpi": 100.0,
    "screen[positions]": np.linspace(-1, 2, 12).reshape(4, 3),
    "sizes": np.array([1.0, 2.0, 5.0, 7.0]),
}


def numbers(value):
    """Flat values of an array-like, structured ones included."""
    array = np.ascontiguousarray(value)
    if array.dtype.names:
        return ["bytes", array.tobytes().hex()]
    return ["values", [float(x) for x in array.ravel()]]


def outcome(function):
    try:
        value = function()
    except RecursionError:
        return ["error", "recursion"]
    except Exception as error:
        return ["error", type(error).__name__]
    return content(value)


def content(value, seen=()):
    """State of anything used as an argument."""
    if isinstance(value, Transform):
        return transform(value, seen)
    if isinstance(value, backend.core.Buffer):
        return numbers(value)
    if isinstance(value, (backend.core.List, gsp.core.List)):
        return ["items", [numbers(value[i]) for i in range(len(value))]]
    if value is None or isinstance(value, str):
        return ["text", value]
    if isinstance(value, (list, tuple)) and value and isinstance(value[0], (list, tuple)):
        return ["items", [numbers(v) for v in value]]
    return numbers(np.asarray(value))


def transform(t, seen=()):
    if id(t) in seen:
        return ["cycle"]
    seen = seen + (id(t),)
    state = [type(t).__name__, "bound", outcome(lambda: t.bound)]
    if len(seen) < 6:
        for name in ("operator", "left", "right", "name", "buffer", "next"):
            if hasattr(type(t), name) or name in vars(t):
                state += [name, content(getattr(t, name), seen)]
    if len(seen) == 1:
        state += ["value", outcome(lambda: t.evaluate(VARIABLES))]
    return state


def describe(obj, rendered=False):
    """State of an object of the backend (or of a transform)."""
    if isinstance(obj, Transform):
        return transform(obj)
    kind = type(obj).__name__
    if isinstance(obj, backend.core.Canvas):
        return [kind, numbers(obj.size)]
    if isinstance(obj, backend.core.Viewport):
        return [kind, numbers(obj.size), numbers(obj.xlim), numbers(obj.ylim)]
    if isinstance(obj, gsp.core.Buffer):
        array = np.asarray(obj)
        return [kind, len(obj), str(array.dtype), ["bytes", array.tobytes().hex()]]
    if isinstance(obj, gsp.core.List):
        return [kind, len(obj), content(obj)]
    state = [kind]
    for name in IN_VARIABLES[kind]:
        state += [name, content(obj.get_variable(name))]
    if rendered:
        state += ["screen", numbers(obj.get_variable("screen[positions]"))]
    return state


def same(a, b, tol=1e-4):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b
