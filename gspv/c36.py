"""C36 — markers show their own shape, rotation and size."""
import numpy as np

from . import scene
from .env import backend, glm, gsp
from .subject import Sheet, Subject, one, project, pixels

ID = "C36"
RULE = ("markers of all types with random angles and sizes, uniform and per item, in every form of the data, seen through all "
        "kinds of matrices: each outline received by the renderer is moved, turned and scaled back by the item's own "
        "position, angle and size and compared with the shape of the icon (corners written down here, symmetries, "
        "roundness, tips); non-trivial = distinct (type, forms of types, angles and sizes, matrices) combinations")
MIN = 6000
Marker = gsp.core.Marker

# Corners of the icons on their 24 x 24 grid (y downwards), centred at (12, 12)
CORNERS = {
    "triangle": [(1, 21), (23, 21), (12, 2)],
    "square": [(3, 3), (3, 21), (21, 21), (21, 3)],
    "minus": [(4, 10), (20, 10), (20, 14), (4, 14)],
    "plus": [(4, 10), (10, 10), (10, 4), (14, 4), (14, 10), (20, 10), (20, 14), (14, 14), (14, 20), (10, 20), (10, 14), (4, 14)],
    "cross": [(12 + sx * a, 12 + sy * b) for sx, sy, a, b in
              [(1, 1, 8, 5.09), (1, 1, 5.09, 8), (1, -1, 8, 5.09), (1, -1, 5.09, 8), (-1, 1, 8, 5.09), (-1, 1, 5.09, 8),
               (-1, -1, 8, 5.09), (-1, -1, 5.09, 8), (0, 1, 0, 2.91), (0, -1, 0, 2.91), (1, 0, 2.91, 0), (-1, 0, 2.91, 0)]],
    "diamond": [(19, 12), (12, 22), (5, 12), (12, 2)],
    "star": [(12, 17.27), (18.18, 21), (16.54, 13.97), (22, 9.24), (14.81, 8.62), (12, 2), (9.19, 8.62), (2, 9.24),
             (7.45, 13.97), (5.82, 21)],
    "arrow": [(14, 20), (10, 20), (10, 11), (6.5, 14.5), (4.08, 12.08), (12, 4.16), (19.92, 12.08), (17.5, 14.5), (14, 11)],
}


def icon(name):
    """Corners with the farthest coordinate at 0.5 from the middle, y upwards."""
    V = (np.array(CORNERS[name], float) - 12) * [1, -1]
    return V / (2 * np.abs(V).max())


def outline(vertices, codes):
    """Points along an outline with curves."""
    from matplotlib.path import Path
    path = Path(vertices, codes)
    points = [path.vertices[0]]
    for curve, code in path.iter_bezier():
        if code != Path.MOVETO:
            points.extend(curve(t) for t in np.linspace(0, 1, 15)[1:])
    return np.array(points)


def width_at(points, y, slack=0.025):
    """Extent along x of the outline near a height."""
    near = points[np.abs(points[:, 1] - y) < slack]
    return (near[:, 0].min(), near[:, 0].max()) if len(near) else (0.0, 0.0)


def shape(m, name, V, codes, label, tol):
    """The outline brought back to the middle, upright and of size one, has to be that of the icon."""
    if name in CORNERS:
        wanted = icon(name)
        got = V
        # Every corner is there, and nothing else
        d = np.abs(got[:, None] - wanted[None]).max(axis=-1)
        m.check(d.min(axis=0).max() < tol, f"{label}: corners {wanted[d.min(axis=0) >= tol].tolist()} of a {name} are "
                f"missing in {np.round(got, 3).tolist()}")
        m.check(d.min(axis=1).max() < tol, f"{label}: a {name} has corners {np.round(got[d.min(axis=1) >= tol], 3).tolist()}")
        # In turn: consecutive corners are those of the icon
        turn = [int(i) for i in d.argmin(axis=1)]
        turn = [i for k, i in enumerate(turn) if k == 0 or i != turn[k - 1]]
        if turn[0] == turn[-1]:
            turn = turn[:-1]
        m.eq(sorted(turn), list(range(len(wanted))), f"{label}: corners of a {name} passed")
        if name != "cross":
            steps = {(b - a) % len(wanted) for a, b in zip(turn, turn[1:])}
            m.check(steps in ({1}, {len(wanted) - 1}), f"{label}: the corners of a {name} are passed in order {turn}")
        return
    P = outline(V, codes)
    low, high = P.min(axis=0), P.max(axis=0)
    if name == "point":
        r = np.hypot(*P.T)
        m.check(np.abs(r - 0.5).max() < tol, f"{label}: a point is round, radius {r.min()} to {r.max()}")
        return
    # Club, heart and spade: mirror symmetric, upright
    mirrored = np.abs(P[:, None] * [-1, 1] - P[None]).sum(axis=-1).min(axis=1)
    m.check(mirrored.max() < 0.06, f"{label}: a {name} is symmetric ({mirrored.max()})")
    top, bottom = P[P[:, 1].argmax()], P[P[:, 1].argmin()]
    middle = P[:, 1][np.abs(P[:, 0]) < 0.02]
    if name == "heart":
        m.check(abs(bottom[0]) < 0.03, f"{label}: the tip of a heart is at the bottom, not {bottom}")
        m.check(0.15 < abs(top[0]) < 0.4 and middle.max() < high[1] - 0.07, f"{label}: a heart has two lobes at the top")
        m.check(abs(high[0] - low[0] - 1) < 0.03, f"{label}: a heart is as wide as its size")
    elif name == "spade":
        m.check(abs(top[0]) < 0.03 and abs(top[1] - 0.5) < 0.03, f"{label}: the tip of a spade is at the top, not {top}")
        m.check(abs(bottom[1] + 0.5) < 0.03, f"{label}: the foot of a spade is at the bottom, not {bottom}")
        a, b = width_at(P, 0.4)
        c, d = width_at(P, -0.1)
        m.check(b - a < 0.35 and d - c > 0.7, f"{label}: a spade gets wider below its tip ({b - a}, {d - c})")
    else:
        m.check(abs(top[1] - 0.5) < 0.03 and abs(bottom[1] + 0.5) < 0.03, f"{label}: a club is as high as its size")
        a, b = width_at(P, 0.3)
        c, d = width_at(P, -0.09, 0.04)
        m.check(0.25 < b - a < 0.6 and d - c > 0.7, f"{label}: a club has one lobe above two ({b - a}, {d - c})")


def form(m, values, kind):
    """The values in some form."""
    how = m.pick(["array", "buffer", "tracked", "list"])
    if how == "buffer":
        return backend.Buffer(len(values), values.dtype, values.tobytes()), how
    if how == "tracked":
        return values.copy().view(glm.ndarray.tracked), how
    if how == "list":
        return values.tolist(), how
    return values.copy(), how


def markers(m):
    sheet = Sheet(m, m.integer(1, 2))
    k = m.integer(0, len(sheet.viewports) - 1)
    n = m.pick([1, 2, 3, 5, 12])
    if m.chance(0.05):
        n = m.pick([65, 140, 260])
    P = m.rng.uniform(-0.9, 0.9, (n, 3)).astype(np.float32)
    name = m.pick(["identity", "affine", "ortho", "perspective", "camera", "mixed"])
    uniform = m.pick(["none", "none", "types", "angles", "sizes", "all", "types and sizes"])
    types = m.rng.integers(1, 13, n).astype(np.int32)
    if m.chance(0.3):
        types = m.rng.choice(types[:2], n).astype(np.int32)
    angles = m.pick([m.rng.uniform(-720, 720, n), m.real(-180, 180) + m.rng.uniform(-0.9, 0.9, n), m.rng.choice([0, 30, 45, 90, 180, 270, -90, 360], n)]).astype(np.float32)
    sizes = m.rng.uniform(4, 600, n).astype(np.float32)
    texts = []
    if uniform in ("types", "all", "types and sizes"):
        types[:] = types[0]
        given_types = m.pick([Marker(int(types[0])), int(types[0])])
        texts.append("one type")
    else:
        given_types, how = form(m, types, "types")
        texts.append(how)
    if uniform in ("angles", "all"):
        angles[:] = np.round(angles[0], 2)
        given_angles = float(angles[0])
        texts.append("one angle")
    else:
        given_angles, how = form(m, angles, "angles")
        texts.append(how)
    if uniform in ("sizes", "all", "types and sizes"):
        sizes[:] = np.round(sizes[0], 2)
        given_sizes = float(sizes[0])
        texts.append("one size")
    else:
        given_sizes, how = form(m, sizes, "sizes")
        texts.append(how)
    colors = m.rng.uniform(0.1, 1, (n, 4)).astype(np.float32)
    visual = backend.visual.Markers(P, given_types, given_sizes, None, given_angles, colors, colors, 0.5)
    for step in range(m.integer(1, 3)):
        matrices = scene.matrices(m, name)
        visual.render(sheet.viewports[k], *matrices)
        look(m, sheet, k, P, matrices, types, angles, sizes, colors, f"{texts} ({name}), step {step}")
        for t in set(types.tolist()):
            m.seen(t, tuple(texts), name)
        # Change one item in place
        i = m.integer(0, n - 1)
        changed = m.pick(["types", "angles", "sizes", "resize"])
        if changed == "resize":
            sheet.resize()
            look(m, sheet, k, P, matrices, types, angles, sizes, colors, f"{texts} ({name}), resized")
            continue
        given, values = {"types": (given_types, types), "angles": (given_angles, angles), "sizes": (given_sizes, sizes)}[changed]
        if not isinstance(given, (np.ndarray, backend.Buffer)):
            continue
        new = {"types": m.integer(1, 12), "angles": m.real(-400, 400), "sizes": m.real(5, 400)}[changed]
        values[i] = new
        if isinstance(given, backend.Buffer):
            given.set_data(i * 4, values[i:i + 1].tobytes())
        else:
            given[i] = new


def look(m, sheet, k, P, matrices, types, angles, sizes, colors, label):
    Q = project(P, matrices)
    shapes = sheet.shapes()[k][1]
    m.eq(len(shapes), len(P), f"{label}: number of markers")
    centres = pixels(Q, sheet.rect(k))
    taken = set()
    alike = {}
    for s in shapes:
        # Colours are distinct: they tell the items
        i = int(np.argmin(np.abs(colors - np.array(s.fill)).max(axis=1)))
        m.check(i not in taken, f"{label}: item {i} is drawn twice")
        taken.add(i)
        name = Marker(int(types[i])).name
        size = np.sqrt(float(sizes[i])) * sheet.dpi / 72
        a = -np.radians(float(angles[i]))
        V = (s.vertices - centres[i]) / size @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        codes = s.codes
        if codes is not None and codes[-1] == 79:       # the end of a closed outline does not count
            V, codes = (V[:-1], codes[:-1])
        text = f"{label}: item {i} ({name}, {angles[i]:.2f} degrees, size {sizes[i]:.2f})"
        scale = max(1.0, np.abs(centres[i]).max() / 200)
        shape(m, name, V, codes, text, 0.012 + 4e-3 * scale / size)
        # Items of one type have the very same shape, whatever their angles and sizes
        first, slack, other = alike.setdefault(name, (V, 4e-3 * scale / size, text))
        m.close(V, first, f"{text}: shape compared with that of {other}", 1e-4 + slack + 4e-3 * scale / size)
        m.count("marker")
    m.event(label, [Marker(int(t)).name for t in types])


def flat(m):
    """Markers face the viewer: the outline does not depend on the matrices."""
    n = m.integer(1, 4)
    P = m.rng.uniform(-0.5, 0.5, (n, 3)).astype(np.float32)
    types = m.rng.integers(1, 13, n).astype(np.int32)
    angles = m.rng.uniform(-200, 200, n).astype(np.float32)
    sizes = m.rng.uniform(20, 400, n).astype(np.float32)
    colors = m.rng.uniform(0.1, 1, (n, 4)).astype(np.float32)
    visual = backend.visual.Markers(P, types, sizes, None, angles, colors, colors, 0.0)
    sheet = Sheet(m, 2)
    outlines = []
    for k in m.rng.permutation(2):
        matrices = scene.matrices(m)
        visual.render(sheet.viewports[k], *matrices)
        shapes = sheet.shapes()[int(k)][1]
        centres = pixels(project(P, matrices), sheet.rect(int(k)))
        found = {}
        for s in shapes:
            i = int(np.argmin(np.abs(colors - np.array(s.fill)).max(axis=1)))
            found[i] = s.vertices - centres[i]
        m.eq(sorted(found), list(range(n)), "items drawn")
        outlines.append(found)
    for i in range(n):
        m.close(outlines[0][i], outlines[1][i], f"outline of a {Marker(int(types[i])).name} seen two ways", 3e-3)
    m.event("flat", types.tolist())
    m.seen("flat", tuple(sorted(set(types.tolist()))))


def every(m):
    """All types upright on one sheet."""
    sheet = Sheet(m, 0, dpi=100.0)
    sheet.viewports.append(backend.core.Viewport(sheet.canvas, 0, 0, 1.0, 1.0, gsp.core.Color(1., 1., 1., 1.)))
    sheet.rects.append(lambda W, H: (0, 0, W, H))
    P = np.zeros((12, 3), np.float32)
    P[:, 0] = np.linspace(-0.9, 0.9, 12)
    P[:, 2] = np.linspace(-0.5, 0.5, 12)
    colors = np.c_[np.linspace(0.05, 1, 12), np.zeros((12, 2)), np.ones(12)].astype(np.float32)
    eye = np.eye(4, dtype=np.float32)
    types, zero, sizes = np.arange(1, 13, dtype=np.int32), np.zeros(12, np.float32), np.full(12, 400, np.float32)
    visual = backend.visual.Markers(P, types, 400.0, None, 0.0, colors, colors, 0.0)
    visual.render(sheet.viewports[0], eye, eye, eye)
    look(m, sheet, 0, P, (eye, eye, eye), types, zero, sizes, colors, "every type")
    names = ["point", "triangle", "square", "minus", "plus", "cross", "star", "club", "heart", "spade", "diamond", "arrow"]
    for i, name in enumerate(names):
        m.eq(int(Marker[name]), i + 1, f"number of {name}")
        m.seen("type", name)


FIXED = [every]
RANDOM = [(markers, 200, 6000), (flat, 60, 1500)]
