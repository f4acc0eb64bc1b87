"""C32 — nearer items are painted over farther ones."""
import numpy as np

from . import draw, scene
from .env import backend, gsp
from .subject import KINDS, Sheet, Subject, pixels, place_of

ID = "C32"
RULE = ("random visuals (up to 60 items, several viewports and matrices, rendered again with other data or matrices) whose "
        "painting order, as received by the renderer, is compared with the order of depths computed from the matrices; "
        "stacks of overlapping opaque items whose visible colour is read from the pixels; non-trivial = distinct "
        "(visual, matrices, item count class, step) combinations")
MIN = 1500


def order(m, subject, shapes, matrices, rect, label):
    """Which item each shape shows, from its place and look; depths must not increase."""
    expected = {d.item: d for d in subject.expected(matrices, rect, 100.0)}
    depths = subject.depths(matrices)
    found = []
    free = set(expected)
    where = {}
    for i, d in expected.items():
        V = np.atleast_2d(d.middle) if d.vertices is None else d.vertices
        where[i] = np.asarray(V, float)
    places = np.array([place_of(subject.kind, expected[i]) for i in range(len(expected))])
    for s in shapes:
        best, distance = None, np.inf
        rest = np.array(sorted(free), int)
        near = np.abs(places[rest] - place_of(subject.kind, s)).max(axis=1)
        for i in rest[np.argsort(near, kind="stable")[:8]].tolist():
            V = where[i]
            if subject.kind in ("Pixels", "Points"):
                e = np.abs(s.middle - V[0]).max()
            elif subject.kind == "Markers":
                e = np.abs(s.vertices.mean(axis=0) - V.mean(axis=0)).max()
            elif len(s.vertices) - (s.codes is not None and s.codes[-1] == 79) != len(V):
                continue
            else:
                e = np.abs(s.vertices[:len(V)] - V).max()
            if e < distance:
                best, distance = i, e
        m.check(best is not None, f"{label}: an unknown shape {s}")
        free.discard(best)
        found.append(best)
    m.check(not free, f"{label}: items {sorted(free)} are not drawn")
    z = depths[found]
    scale = max(1e-5, 1e-5 * np.abs(z).max())
    m.check((np.diff(z) <= scale).all(), f"{label}: depths in painting order are {z.tolist()}")
    return found


def visuals(m):
    sheet = Sheet(m, m.integer(1, 2), dpi=100.0)
    kind = m.pick(KINDS)
    n = m.pick([2, 3, 5, 10, 20, 60])
    if m.chance(0.04):
        n = m.pick([257, 1030, 1500]) if kind != "Markers" else 257
    subject = Subject(m, kind, n=n)
    for step in range(m.integer(1, 3)):
        k = m.integer(0, len(sheet.viewports) - 1)
        name = m.pick(["identity", "affine", "ortho", "perspective", "camera", "mixed"])
        matrices = scene.matrices(m, name)
        subject.visual.render(sheet.viewports[k], *matrices)
        label = f"{kind} ({name}, {sorted(subject.forms)}, step {step})"
        found = order(m, subject, sheet.shapes()[k][1], matrices, sheet.rect(k), label)
        m.event(label, found)
        m.seen(kind, name, subject.n, step)
        subject.modify(m)


def stacks(m):
    """Opaque items at the same place: the nearest one shows."""
    sheet = Sheet(m, 0, dpi=100.0)
    sheet.viewports.append(backend.core.Viewport(sheet.canvas, 0, 0, 1.0, 1.0, gsp.core.Color(1., 1., 1., 1.)))
    sheet.rects.append(lambda W, H: (0, 0, W, H))
    n = m.integer(2, 8)
    at = m.rng.uniform(-0.6, 0.6, 2)
    z = m.rng.permutation(n) / n - 0.5 + m.rng.uniform(-0.03, 0.03, n)
    colors = np.c_[m.rng.permutation(n) / n, m.rng.uniform(0, 1, (n, 2)), np.ones(n)].astype(np.float32)
    kind = m.pick(["Points", "Markers", "Segments", "Paths", "Polygons"])
    V = backend.visual
    P = np.c_[np.repeat(at[None], n, axis=0), z].astype(np.float32)
    r = 0.3
    if kind == "Points":
        visual = V.Points(P, 400.0, colors, colors, 0.0)
    elif kind == "Markers":
        visual = V.Markers(P, gsp.core.Marker.square, 500.0, None, 0.0, colors, colors, 0.0)
    else:
        tilt = m.rng.uniform(-0.01, 0.01, n)
        corner = lambda x, y, k: np.c_[P[:, 0] + x, P[:, 1] + y, P[:, 2] + k * tilt]
        if kind == "Segments":
            visual = V.Segments(np.stack([corner(-r, 0, -1), corner(r, 0, 1)], axis=1).astype(np.float32),
                                gsp.core.LineCap.round, colors, 12.0)
        elif kind == "Paths":
            Q = np.stack([corner(-r, 0, -1), corner(0, 0, 2), corner(r, 0, -1)], axis=1).reshape(-1, 3)
            visual = V.Paths(Q.astype(np.float32), 3, colors, 12.0, gsp.core.LineStyle.solid, gsp.core.LineJoin.round,
                             gsp.core.LineCap.round)
        else:
            Q = np.stack([corner(-r, -r, -1), corner(r, -r, 2), corner(0, r, -1)], axis=1).reshape(-1, 3)
            visual = V.Polygons(Q.astype(np.float32), 3, colors, colors, 0.0, gsp.core.LineStyle.solid,
                                gsp.core.LineJoin.round)
    eye = np.eye(4, dtype=np.float32)
    proj = m.pick(["identity", "flipped", "ortho"])
    M = {"identity": eye, "flipped": np.diag([1, 1, -1, 1]).astype(np.float32),
         "ortho": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -0.1, 0.3], [0, 0, 0, 1]], np.float32)}[proj]
    visual.render(sheet.viewports[0], eye, eye, M)
    nearest = int(np.argmin(z * M[2, 2]))
    x, y = pixels(np.append(at, 0)[None], sheet.rect(0))[0]
    image = draw.raster(sheet.figure)
    m.eq(image.shape[:2], (sheet.h, sheet.w), "size of the image")
    got = image[sheet.h - 1 - int(y), int(x)]
    m.check(np.abs(got[:3].astype(float) / 255 - colors[nearest, :3]).max() < 0.02 and got[3] == 255,
            f"{kind} ({proj}) with depths {z.tolist()}: {got} shows, not item {nearest} {colors[nearest]}")
    m.event("stack", kind, n, proj)
    m.seen("stack", kind, proj, n)


RANDOM = [(visuals, 350, 9000), (stacks, 60, 1200)]
