"""C24 — affine matrices are exactly the transformations they are named for."""
import numpy as np

from .env import glm

ID = "C24"
RULE = ("random angles (negative, large, multiples of a quarter turn), axes (unit, tiny, huge, along the coordinates), "
        "pairs of directions (random, parallel, opposite, nearly so), element types and the transpose flag: images of "
        "random points against the geometric definition computed by Rodrigues' formula in double precision; "
        "non-trivial = distinct (function, kind of input, type, transpose) combinations")
MIN = 5000
QUICK = 20


def unit(v):
    return np.asarray(v, float) / np.linalg.norm(v)


def rodrigues(P, axis, degrees):
    k, t = unit(axis), np.radians(degrees)
    return P * np.cos(t) + np.cross(k, P) * np.sin(t) + np.outer(P @ k, k) * (1 - np.cos(t))


def options(m, half=False):
    """Keyword arguments and the resulting (type, transposed, tolerance)."""
    kwargs, dtype = {}, np.float32
    if m.chance(0.6):
        dtype = kwargs["dtype"] = m.pick([np.float32, np.float64, np.float16 if half else np.float64])
    transposed = m.chance(0.4)
    if transposed or m.chance(0.3):
        kwargs["transpose"] = transposed
    return kwargs, np.dtype(dtype), transposed, {np.float32: 1e-5, np.float16: 1e-2}.get(dtype, 1e-9)


def matrix(m, M, dtype, transposed, label):
    m.eq(np.shape(M), (4, 4), f"{label}: shape")
    m.eq(M.dtype, dtype, f"{label}: type")
    M = np.asarray(M, float)
    return M.T if transposed else M


def images(M, P):
    H = np.c_[P, np.ones(len(P))] @ M.T
    return H


def angle(m):
    return m.pick([m.real(-180, 180), m.real(-1000, 1000), float(m.integer(-8, 8) * 45), m.integer(-400, 400),
                   m.real(-1e-3, 1e-3), m.real(0, 360), m.real(-1e5, 1e5)])


def vector(m, k=3):
    form = m.pick(["random", "random", "axis", "small", "large", "diagonal", "integer"])
    v = m.rng.normal(size=k)
    if form == "axis":
        v = np.eye(k)[m.integer(0, k - 1)] * m.pick([1, -1, 2.5])
    elif form == "small":
        v = v * 1e-5
    elif form == "large":
        v = v * 1e5
    elif form == "diagonal":
        v = np.array([m.pick([-1., 1.]) for _ in range(k)])
    elif form == "integer":
        v = m.rng.integers(-4, 5, k)
        if not v.any():
            v[m.integer(0, k - 1)] = 1
        return (v if m.chance() else [int(x) for x in v]), form
    return m.pick([v, tuple(v), list(v)]), form


def moves(m):
    """Translation and scaling."""
    kwargs, dtype, transposed, tol = options(m)
    v, form = vector(m)
    P = m.rng.normal(size=(5, 3)) * 3
    for name, want in (("translate", P + np.asarray(v, float)), ("scale", P * np.asarray(v, float))):
        label = f"{name}({v}, {kwargs})"
        M = matrix(m, getattr(glm, name)(v, **kwargs), dtype, transposed, label)
        m.close(images(M, P), np.c_[want, np.ones(len(P))], label, tol)
        m.close(images(M, np.zeros((1, 3)))[0, :3], np.asarray(v, float) if name == "translate" else [0, 0, 0],
                f"{label}: origin", tol)
        # directions are not translated
        D = np.c_[P, np.zeros(len(P))] @ M.T
        m.close(D, np.c_[P if name == "translate" else want, np.zeros(len(P))], f"{label}: directions", tol)
        m.seen(name, form, str(dtype), transposed)
    m.event("moves", form)


def rotations(m):
    kwargs, dtype, transposed, tol = options(m, True)
    P = m.rng.normal(size=(6, 3))
    theta = angle(m)
    which = m.integer(0, 3)
    if which < 3:
        axis, form = np.eye(3)[which], "xyz"[which]
        if m.chance(0.05):
            theta = 0
            M = getattr(glm, form + "rotate")(**kwargs)
        else:
            M = getattr(glm, form + "rotate")(theta, **kwargs)
        label = f"{form}rotate({theta}, {kwargs})"
    else:
        axis, form = vector(m)
        M = glm.rotate(theta, axis, **kwargs)
        label = f"rotate({theta}, {axis}, {kwargs})"
    M = matrix(m, M, dtype, transposed, label)
    m.close(images(M, P), np.c_[rodrigues(P, axis, theta), np.ones(len(P))], label, tol)
    m.close(M @ M.T, np.eye(4), f"{label}: orthonormal", tol)
    m.close(np.linalg.det(M), 1, f"{label}: determinant", tol)
    m.close(images(M, np.asarray([axis], float) / np.linalg.norm(axis))[0, :3], unit(axis), f"{label}: axis", tol)
    if which < 3:
        general = glm.rotate(theta, axis * m.pick([1., 3.]), **kwargs)
        m.close(np.asarray(general, float).T if transposed else general, M, f"{label} and rotate", tol)
    m.event(label)
    m.seen("rotate", form, str(dtype), transposed, theta % 90 == 0)


def aligned(m):
    kwargs, dtype, transposed, tol = options(m, True)
    u, form = vector(m)
    v, _ = vector(m)
    relation = m.pick(["any", "any", "same", "opposite", "nearly same", "nearly opposite", "orthogonal"])
    a = np.asarray(u, float)
    scale = m.pick([1.0, 1.0, 2.5, 1e-3, 1e3])
    if relation == "same":
        v = a * scale
    elif relation == "opposite":
        v = -a * scale
    elif relation.startswith("nearly"):
        e = m.pick([1e-2, 1e-3, 1e-4, 1e-6, 1e-9])
        v = (a if relation == "nearly same" else -a) * scale + m.rng.normal(size=3) * e * np.linalg.norm(a) * scale
    elif relation == "orthogonal":
        v = np.cross(a, m.rng.normal(size=3))
    label = f"align({u}, {v}, {kwargs})"
    M = matrix(m, glm.align(u, v, **kwargs), dtype, transposed, label)
    loose = max(tol, 1e-6)
    m.close(M @ M.T, np.eye(4), f"{label}: orthonormal", loose)
    m.close(np.linalg.det(M), 1, f"{label}: determinant", loose)
    m.close((M @ np.append(unit(a), 1))[:3], unit(v), f"{label}: image of the first", loose)
    m.close(M[3], [0, 0, 0, 1], f"{label}: last row", loose)
    m.close(M[:, 3], [0, 0, 0, 1], f"{label}: last column", loose)
    m.event(label)
    m.seen("align", relation, form, str(dtype), transposed)


RANDOM = [(moves, 300, 12000), (rotations, 500, 20000), (aligned, 500, 20000)]
