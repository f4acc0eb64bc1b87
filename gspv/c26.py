"""C26 — the trackball stays a pure rotation and follows the drag."""
import numpy as np

from .c24 import rodrigues, unit
from .env import glm

ID = "C26"
RULE = ("random histories of drags (short, long, through the centre, on the rim, outside the sphere, null) and orientation "
        "settings, up to several hundred steps: the model matrix after every step against rotation matrices composed in "
        "double precision; non-trivial = distinct (step kind, zone of the sphere, history length class) combinations")
MIN = 5000
R = 0.8


def sphere(x, y):
    """A point of the virtual sphere, or of the hyperbolic sheet around it."""
    d = np.hypot(x, y)
    z = np.sqrt(R * R - d * d) if d < R / np.sqrt(2) else R * R / 2 / d
    return np.array([x, y, z])


def turn(axis, degrees):
    return rodrigues(np.eye(3), axis, degrees).T


def rotation(m, M, label):
    M = np.asarray(M, float)
    m.eq(M.shape, (4, 4), f"{label}: shape")
    m.close(M[3], [0, 0, 0, 1], f"{label}: last row", 1e-6)
    m.close(M[:, 3], [0, 0, 0, 1], f"{label}: last column", 1e-6)
    m.close(M[:3, :3] @ M[:3, :3].T, np.eye(3), f"{label}: orthonormal", 2e-5)
    m.close(np.linalg.det(M[:3, :3]), 1, f"{label}: determinant", 2e-5)
    return M[:3, :3]


def oriented(m):
    """Setting theta and phi, at creation and later."""
    theta, phi = (m.pick([0, m.real(-89, 89), m.integer(-89, 89)]) for _ in range(2))
    form = m.pick(["created", "set", "set again", "phi first"])
    ball = glm.Trackball(theta, phi) if form == "created" else glm.Trackball(m.real(-80, 80), m.real(-80, 80))
    if form == "phi first":
        ball.phi = phi
        ball.theta = theta
    elif form != "created":
        ball.theta = theta
        if form == "set again":
            ball.theta = m.real(-80, 80)
            ball.phi = m.real(-80, 80)
            ball.theta = theta
        ball.phi = phi
    label = f"Trackball with theta {theta}, phi {phi} ({form})"
    M = rotation(m, ball.model, label)
    # Rotation about x by theta, then about z by phi
    m.close(M, orientation(theta, phi), label, 1e-5)
    m.close(ball.theta, theta, f"{label}: theta", 1e-6)
    m.close(ball.phi, phi, f"{label}: phi", 1e-6)
    m.close(rotation(m, ball.model, label), M, f"{label}: model after reading the angles")
    m.event(label)
    m.seen("set", form, theta == 0, phi == 0)


def turned(m):
    """Any number of turns at creation, or one of the angles set when the other is nil."""
    theta, phi = (m.pick([m.real(-1000, 1000), m.integer(-9, 9) * 90]) for _ in range(2))
    form = m.pick(["created", "theta", "phi", "both"])
    if form == "created":
        ball = glm.Trackball(theta, phi)
    elif form == "both":
        ball = glm.Trackball(0, 0)
        for name in m.pick([["theta", "phi"], ["phi", "theta"], ["phi", "theta", "phi"]]):
            setattr(ball, name, {"theta": theta, "phi": phi}[name])
    elif form == "theta":
        phi = m.pick([0, m.real(-80, 80)])
        ball = glm.Trackball(0, phi)
        ball.theta = theta
    else:
        theta = m.pick([0, m.real(-80, 80)])
        ball = glm.Trackball(theta, 0)
        ball.phi = phi
    label = f"Trackball with theta {theta}, phi {phi} ({form})"
    m.close(rotation(m, ball.model, label), orientation(theta, phi), label, 1e-5)
    m.event(label)
    m.seen("turned", form, abs(theta) > 360, abs(phi) > 360)


def orientation(theta, phi):
    return turn((0, 0, 1), phi) @ turn((1, 0, 0), theta)


def histories(m):
    ball = glm.Trackball(m.real(-80, 80), m.real(-80, 80)) if m.chance(0.7) else glm.Trackball()
    M = rotation(m, ball.model, "new trackball")
    long = m.chance(0.25)
    steps = m.integer(100, 400) if long else m.integer(1, 15)
    drift = 0
    for step in range(steps):
        what = m.pick(["drag", "drag", "drag", "rim", "outside", "tiny", "null", "through"] + (["set"] if not long else []))
        if what == "set":
            theta, phi = m.real(-89, 89), m.real(-89, 89)
            if m.chance(0.3):
                theta, phi = m.pick([(0, 0), (0.0, 0.0), (0, phi), (theta, 0)])
            ball.theta = theta
            ball.phi = phi
            M = orientation(theta, phi)
            drift = 0
            label = f"theta {theta}, phi {phi} at step {step}"
        else:
            span = {"rim": 0.6, "outside": 3, "tiny": 1e-3}.get(what, 0.5)
            x, y = m.real(-span, span), m.real(-span, span)
            dx, dy = m.real(-span, span), m.real(-span, span)
            if what == "rim":
                t = m.real(0, 2 * np.pi)
                x, y = R / np.sqrt(2) * np.cos(t) * m.real(0.95, 1.05), R / np.sqrt(2) * np.sin(t) * m.real(0.95, 1.05)
            elif what == "null":
                dx = dy = m.pick([0, 0.0])
            elif what == "through":
                dx, dy = -2 * x, -2 * y
            elif m.chance(0.25):        # straight
                x, y = m.pick([(x, y), (x, y), (0, y), (x, 0.0)])
                dx, dy = m.pick([(0, dy), (0.0, dy), (dx, 0), (dx, 0.0), (dx, dx), (dx, -dx)])
            ball.drag_to(x, y, dx, dy)
            label = f"drag from {x}, {y} by {dx}, {dy} ({what}, step {step})"
            if dx or dy:
                last, new = sphere(x, y), sphere(x + dx, y + dy)
                axis = np.cross(new, last)
                half = min(1, np.linalg.norm(new - last) / (2 * R))
                # The model is row-major: the scene follows the pointer
                M = M @ turn(axis, np.degrees(2 * np.arcsin(half)))
                drift += 1
        got = rotation(m, ball.model, label)
        m.close(got, M, f"{label}: model", 2e-5)
        if what == "null" and step:
            m.close(got, before, f"{label}: model unchanged", 1e-7)
        before = got
        m.event(label)
        m.seen(what, step // 25, long)
    # Reading the angles changes nothing
    ball.theta, ball.phi
    m.close(rotation(m, ball.model, "at the end"), M, "model after reading the angles", 2e-5)


RANDOM = [(oriented, 200, 8000), (turned, 100, 3000), (histories, 150, 4000)]
