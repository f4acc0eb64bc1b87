"""Random transforms with the value they must have, computed with numpy alone."""
import matplotlib
import numpy as np

from .env import backend, glm, gsp

T = gsp.transform
UNITS = {"Pixel": lambda dpi: 1.0, "Inch": lambda dpi: dpi, "Point": lambda dpi: dpi / 72,
         "Centimeter": lambda dpi: dpi / 2.54, "Millimeter": lambda dpi: dpi / 25.4,
         "Meter": lambda dpi: dpi / 0.0254, "Kilometer": lambda dpi: dpi / 0.0000254}
COLORMAPS = ["magma", "viridis", "gray", "jet", "hsv", "tab10", "RdBu", "plasma_r"]


class Unclear(ValueError):
    """Rounding decides the result."""


def lookup(name, values, vmin=None, vmax=None):
    """Colours of values with the named colormap."""
    values = np.asarray(values, dtype=float)
    low = values.min() if vmin is None else vmin
    high = values.max() if vmax is None else vmax
    if low > high:
        raise Unclear("empty range")
    relative = (values - low) / (high - low) if high != low else np.zeros_like(values)
    cmap = matplotlib.colormaps[name]
    place = np.clip(relative, 0, 1) * cmap.N
    edge = np.abs(place - np.round(place)) < 1e-3
    if (edge & (place > 1e-9) & (place < cmap.N - 1e-9)).any():
        raise Unclear("values between two colours")
    if ((np.abs(relative) < 1e-4) & (np.abs(relative) > 1e-12)).any():
        raise Unclear("values next to the bounds")
    index = np.clip(np.floor(place), 0, cmap.N - 1).astype(int)
    return np.array([cmap(i) for i in range(cmap.N)])[index]


def variables(m, n):
    """What a visual makes available while rendering."""
    return {
        "dpi": m.pick([72.0, 100.0, 96.5, 150.0]),
        "screen[positions]": m.rng.uniform(-1, 1, (n, 3)),
        "sizes": m.rng.uniform(1, 9, n),
        "fill_colors": m.rng.uniform(0, 1, (n, 4)),
    }


def values(m, shape):
    """An array of numbers without zeros, of some numeric type."""
    dtype = m.pick([np.float32, np.float64, np.float32, np.int32, np.int64, np.uint16])
    if np.dtype(dtype).kind == "f":
        return (m.rng.uniform(0.2, 3, shape) * m.rng.choice([-1, 1], shape)).astype(dtype)
    return m.rng.integers(1, 60, shape).astype(dtype)


def holder(m, array):
    """The array itself, or in a form a transform may be bound to."""
    kind = m.pick(["array", "array", "buffer", "tracked", "strided"])
    if kind == "buffer":
        array = np.ascontiguousarray(array)
        sub = array.dtype if array.ndim == 1 else np.dtype((array.dtype, array.shape[1:]))
        return backend.core.Buffer(len(array), sub, array.tobytes()), kind
    if kind == "tracked" and not array.dtype.names:
        return np.ascontiguousarray(array).view(glm.ndarray.tracked), kind
    if kind == "strided":
        twice = np.repeat(array, 2, axis=0)
        return twice[::2], kind
    return array, kind


def accessor(m, n):
    """An accessor bound to some array, its value, and what it is."""
    kind = m.pick(["xyzw", "rgba", "field"])
    if kind == "field":
        names = [str(x) for x in m.rng.permutation(["position", "size", "x", "y", "r", "mass"])[:m.integer(1, 4)]]
        array = np.zeros(n, [(name, m.pick([np.float32, np.float64, np.int32])) for name in names])
        for name in names:
            array[name] = values(m, n)
        key = m.pick(names)
        held, how = holder(m, array)
        make = getattr(T, key.upper()) if key in ("x", "y", "r") and m.chance() else None
        t = make()(held) if make else T.Accessor(key=key)(held)
        return t, array[key].copy(), f"field {how}"
    width = m.integer(1, 4)
    array = values(m, (n, width))
    i = m.integer(0, width - 1)
    held, how = holder(m, array)
    t = getattr(T, kind[i].upper())() if m.chance(0.7) else T.Accessor(key=kind[i])
    return t(held), array[:, i].copy(), f"{kind} {how}"


def measure(m, dpi, vector):
    """A measure evaluated with a resolution alone: a number of pixels."""
    unit = m.pick(list(UNITS))
    factor = UNITS[unit](dpi)
    t = getattr(T, unit)()
    if m.chance(0.15):
        return t, np.asarray(factor), "unbound " + unit     # one unit
    if not vector or m.chance(0.3):
        k = m.pick([m.integer(1, 40), m.real(0.2, 20)])
        return m.pick([lambda: k * t, lambda: t * k, lambda: t(k)])(), np.asarray(k * factor), "scalar " + unit
    size = m.pick([3, 3, 2]) if vector == 2 else 3
    k = [m.real(0.5, 20) for _ in range(size)]
    held = m.pick([lambda: tuple(k), lambda: np.array(k)])()
    return m.pick([lambda: held * t, lambda: t * held, lambda: t(held)])(), \
        np.array(k[:2] + [0.0] * (size - 2)) * factor, "vector " + unit
