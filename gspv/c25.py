"""C25 — projection, viewport and viewing matrices map their volumes as specified."""
import itertools

import numpy as np

from .c24 import images, matrix, options, unit
from .env import glm

ID = "C25"
RULE = ("random view volumes (symmetric, off-centre, flat, deep, mirrored), viewports, eye/centre/up configurations, element "
        "types and the transpose flag: images of the corners of the volume, of random points inside and of the eye frame, "
        "against their definition; non-trivial = distinct (function, kind of volume, type, transpose) combinations")
MIN = 5000
QUICK = 20
CUBE = np.array(list(itertools.product((-1, 1), (-1, 1), (-1, 1))), float)


def volume(m):
    """left, right, bottom, top, near, far."""
    form = m.pick(["symmetric", "off-centre", "one side", "integer", "wide", "deep"])
    near = m.real(0.1, 5)
    far = near + m.real(0.5, 50)
    if form == "symmetric":
        w, h = m.real(0.1, 5), m.real(0.1, 5)
        box = [-w, w, -h, h]
    elif form == "one side":
        a, b = m.real(0.1, 3), m.real(0.1, 3)
        box = [a, a + m.real(0.5, 4), -b - m.real(0.5, 4), -b]
    elif form == "integer":
        box = [m.integer(-5, 0), m.integer(1, 5), m.integer(-5, 0), m.integer(1, 5)]
        near, far = m.integer(1, 4), m.integer(5, 99)
    else:
        box = [m.real(-4, 1), m.real(1.5, 6), m.real(-4, 1), m.real(1.5, 6)]
        if form == "wide":
            box[1] *= 10
        if form == "deep":
            far = near * m.pick([1000, 2000.0, 1e4])
    return box, near, far, form


def within(P, box, near, far):
    """Position of P in the box, as -1..1 coordinates (depth near to far)."""
    x = 2 * (P[:, 0] - box[0]) / (box[1] - box[0]) - 1
    y = 2 * (P[:, 1] - box[2]) / (box[3] - box[2]) - 1
    return x, y


def orthographic(m):
    kwargs, dtype, transposed, tol = options(m)
    box, near, far, form = volume(m)
    label = f"ortho({box}, {near}, {far}, {kwargs})"
    M = matrix(m, glm.ortho(*box, near, far, **kwargs), dtype, transposed, label)
    corners = np.array([(box[0 if x < 0 else 1], box[2 if y < 0 else 3], -(near if z < 0 else far)) for x, y, z in CUBE],
                       float)
    m.close(images(M, corners), np.c_[CUBE, np.ones(8)], f"{label}: corners", tol * 10)
    P = m.rng.normal(size=(5, 3)) * 3
    x, y = within(P, box, near, far)
    z = 2 * (-P[:, 2] - near) / (far - near) - 1
    m.close(images(M, P), np.c_[x, y, z, np.ones(5)], f"{label}: points", tol * 10)
    m.event(label)
    m.seen("ortho", form, str(dtype), transposed)


def frusta(m):
    kwargs, dtype, transposed, tol = options(m)
    box, near, far, form = volume(m)
    name = m.pick(["frustum", "frustum", "perspective"])
    if name == "perspective":
        fovy, aspect = m.pick([m.real(5, 150), m.integer(10, 120)]), m.pick([1, m.real(0.2, 5)])
        h = np.tan(np.radians(fovy) / 2) * near
        box = [-h * aspect, h * aspect, -h, h]
        label = f"perspective({fovy}, {aspect}, {near}, {far}, {kwargs})"
        M = glm.perspective(fovy, aspect, near, far, **kwargs)
    else:
        label = f"frustum({box}, {near}, {far}, {kwargs})"
        M = glm.frustum(*box, near, far, **kwargs)
    M = matrix(m, M, dtype, transposed, label)
    # far face: the near one seen from the eye
    corners = np.array([(box[0 if x < 0 else 1] * (1 if z < 0 else far / near),
                         box[2 if y < 0 else 3] * (1 if z < 0 else far / near),
                         -(near if z < 0 else far)) for x, y, z in CUBE], float)
    H = images(M, corners)
    m.check((H[:, 3] > 0).all(), f"{label}: weight of the corners {H[:, 3]}")
    m.close(H[:, :3] / H[:, 3:], CUBE, f"{label}: corners", tol * 20)
    # points on one line of sight go to the same place, ordered by depth
    p = np.array([m.real(box[0], box[1]), m.real(box[2], box[3]), -near])
    k = np.sort(m.rng.uniform(1, far / near, 4))
    H = images(M, p[None] * k[:, None])
    q = H[:, :3] / H[:, 3:]
    x, y = within(p[None], box, near, far)
    m.close(q[:, 0], np.repeat(x, 4), f"{label}: x along a line of sight", tol * 20)
    m.close(q[:, 1], np.repeat(y, 4), f"{label}: y along a line of sight", tol * 20)
    m.check((np.diff(q[:, 2]) > -1e-5).all() and (np.abs(q[:, 2]) < 1 + 1e-3).all(),
            f"{label}: depth along a line of sight {q[:, 2]}")
    m.event(label)
    m.seen(name, form, str(dtype), transposed)


def viewports(m):
    kwargs, dtype, transposed, tol = options(m)
    integer = m.chance()
    draw = (lambda a, b: m.integer(a, b)) if integer else (lambda a, b: m.real(a, b))
    x, y, w, h, d = draw(-50, 500), draw(-50, 500), draw(1, 800), draw(1, 800), m.pick([1, 2, 1.0, m.real(0.5, 20)])
    label = f"viewport({x}, {y}, {w}, {h}, {d}, {kwargs})"
    M = matrix(m, glm.viewport(x, y, w, h, d, **kwargs), dtype, transposed, label)
    half = (CUBE + 1) / 2
    m.close(images(M, CUBE), np.c_[x + half[:, 0] * w, y + half[:, 1] * h, half[:, 2] * d, np.ones(8)],
            f"{label}: corners", tol)
    m.event(label)
    m.seen("viewport", integer, str(dtype), transposed)


def views(m):
    kwargs, dtype, transposed, tol = options(m)
    form = m.pick(["any", "any", "axis", "oblique up", "far", "default", "sequences", "whole"])
    eye, center, up = m.rng.normal(size=3) * 3, m.rng.normal(size=3) * 3, m.rng.normal(size=3)
    if form == "axis":
        eye, center = np.eye(3)[m.integer(0, 2)] * m.pick([4.5, -3]), np.zeros(3)
    elif form == "far":
        eye = eye * 100
    elif form == "oblique up":
        up = unit(center - eye) * m.pick([3, -3]) + m.rng.normal(size=3)
    elif form == "whole":
        # some of them given in whole numbers
        eye, center, up = (np.round(v).astype(int) if m.chance(0.6) else v for v in (eye * 2, center, up * 2))
        if not (eye - center).any():
            center = eye + [0.5, 0.25, 0.125]
        if not up.any():
            up = np.array([0, 1, 0])
    gaze = center - eye
    while np.linalg.norm(np.cross(unit(gaze), unit(up))) < 0.05:
        up = m.rng.normal(size=3)
    if form == "default":
        eye, center, up = np.array([0, 0, 4.5]), np.zeros(3), np.array([0, 1., 0])
        M = glm.lookat(**kwargs)
    elif form == "whole":
        M = glm.lookat(*[m.pick([lambda: v, lambda: tuple(v.tolist()), lambda: v.tolist()])() for v in (eye, center, up)],
                       **kwargs)
    elif form == "sequences":
        M = glm.lookat(tuple(eye), list(center), tuple(up), **kwargs)
    else:
        M = glm.lookat(eye, center, up, **kwargs)
    label = f"lookat({eye}, {center}, {up}, {kwargs})"
    loose = max(tol, 1e-6) * 10
    M = matrix(m, M, dtype, transposed, label)
    R = M[:3, :3]
    m.close(R @ R.T, np.eye(3), f"{label}: rigid", loose)
    m.close(np.linalg.det(R), 1, f"{label}: determinant", loose)
    m.close(M[3], [0, 0, 0, 1], f"{label}: last row", loose)
    size = np.linalg.norm(eye) + np.linalg.norm(center)
    see = lambda p: (M @ np.append(p, 1))[:3]
    m.close(see(eye) / size, [0, 0, 0], f"{label}: eye", loose)
    distance = np.linalg.norm(center - eye)
    m.close(see(center) / size, np.array([0, 0, -distance]) / size, f"{label}: centre", loose)
    u = R @ unit(up)
    m.close(u[0], 0, f"{label}: up vector to the side", loose * 10)
    m.check(u[1] > 0, f"{label}: up vector goes to {u}")
    m.event(label)
    m.seen("lookat", form, str(dtype), transposed)


def cameras(m):
    x, y = m.pick([m.real(0, 90), m.integer(0, 90)]), m.pick([m.real(0, 90), 0, 90, m.real(0, 90)])
    zoom, mode = m.pick([1, m.real(0.2, 3), m.real(0.2, 3), m.real(3, 60), m.real(0.1, 0.3)]), m.pick(["perspective", "ortho"])
    label = f"camera({x}, {y}, {zoom}, {mode})"
    given = [x, y, zoom, mode]
    if m.chance(0.1):
        k = m.integer(0, 3)
        x, y, zoom, mode = given[:k] + [25, 45, 1, "perspective"][k:]
        given = given[:k]
        label = f"camera({given})"
    M = np.asarray(glm.camera(*given), float)
    m.eq(M.shape, (4, 4), f"{label}: shape")
    m.check(np.isfinite(M).all(), f"{label}: finite")
    H = M @ [0, 0, 0, 1]
    m.check(H[3] > 0, f"{label}: the origin is behind the viewer")
    m.close(H[:2] / H[3], [0, 0], f"{label}: origin", 1e-6)
    m.check(abs(H[2] / H[3]) <= 1, f"{label}: depth of the origin {H[2] / H[3]}")
    # The scene is turned about y, then about x, zoomed and seen from z = 4.5
    P = m.rng.uniform(-1, 1, (6, 3))
    a, b = np.radians(x), np.radians(y)
    Q = P @ np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]]).T
    Q = Q @ np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]]).T * zoom - [0, 0, 4.5]
    keep = -Q[:, 2] > 0.5
    H = images(M, P)[keep]
    Q = Q[keep]
    f = 1 if mode == "ortho" else -1 / (Q[:, 2] * np.tan(np.radians(12.5)))
    m.close((H[:, :2] / H[:, 3:]).T, (Q[:, :2]).T * f, f"{label}: points", 1e-4)
    order = np.argsort(-Q[:, 2])
    depth = (H[:, 2] / H[:, 3])[order]
    m.check((np.diff(depth) > -1e-4).all(), f"{label}: farther points have smaller depth")
    m.event(label)
    m.seen("camera", mode, x == 0 or y in (0, 90))


RANDOM = [(orthographic, 250, 10000), (frusta, 400, 16000), (viewports, 200, 8000), (views, 400, 16000),
          (cameras, 200, 8000)]
