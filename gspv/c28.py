"""C28 — SVG path data is parsed as the SVG specification says."""
import numpy as np

from gsp.core.svg import svg_to_path
from gsp.core.types import Marker

ID = "C28"
RULE = ("random path data (all twenty commands, implicit repetition, several subpaths, all separators and number forms, "
        "arcs too small for their end points, null arcs) evaluated by an independent reader of the specification and "
        "compared segment by segment, arcs by points on the ellipse and the angle covered; the built-in markers as well; "
        "non-trivial = distinct (command, previous command, absolute or relative, repeated) combinations")
MIN = 3000
QUICK = 20
NULL = 1e-7     # length of the lines that join an arc computed in floating point, in the unit square


class Reader:
    """The segments path data defines: (kind, points...) with complex points."""

    def __init__(self):
        self.segments = []
        self.here = self.start = 0j
        self.control = None     # (kind, last control point)

    def run(self, command, values):
        relative = command.islower()
        kind = command.upper()
        base = self.here if relative else 0j
        control, self.control = self.control, None
        if kind == "M":
            self.here = self.start = base + complex(*values)
            self.segments.append(("M", self.here))
        elif kind == "Z":
            self.segments.append(("Z", self.here, self.start))
            self.here = self.start
        elif kind in "LHV":
            x, y = self.here.real, self.here.imag
            if kind == "L":
                end = base + complex(*values)
            elif kind == "H":
                end = complex(values[0] + base.real, y)
            else:
                end = complex(x, values[0] + base.imag)
            self.add("L", end)
        elif kind in "CS":
            points = [base + complex(*values[i:i + 2]) for i in range(0, len(values), 2)]
            if kind == "S":
                first = 2 * self.here - control[1] if control and control[0] == "C" else self.here
                points.insert(0, first)
            self.add("C", *points)
            self.control = ("C", points[1])
        elif kind in "QT":
            points = [base + complex(*values[i:i + 2]) for i in range(0, len(values), 2)]
            if kind == "T":
                first = 2 * self.here - control[1] if control and control[0] == "Q" else self.here
                points.insert(0, first)
            self.add("Q", *points)
            self.control = ("Q", points[0])
        elif kind == "A":
            rx, ry, phi, large, sweep = values[:5]
            end = base + complex(*values[5:])
            if end == self.here:
                return
            if rx == 0 or ry == 0:
                self.add("L", end)
            else:
                self.arc(abs(rx), abs(ry), np.radians(phi), large, sweep, end)

    def add(self, kind, *points):
        self.segments.append((kind, self.here) + points)
        self.here = points[-1]

    def arc(self, rx, ry, phi, large, sweep, end):
        # In the frame where the ellipse is a unit circle
        turn = np.exp(-1j * phi)
        flat = lambda p: complex((p * turn).real / rx, (p * turn).imag / ry)
        a, b = flat(self.here), flat(end)
        half = abs(b - a) / 2
        if half > 1:
            rx, ry = rx * half, ry * half
            a, b = flat(self.here), flat(end)
            half = 1.0
        # Two centres: choose by the angle covered
        away = 1j * (b - a) / abs(b - a) * np.sqrt(max(0.0, 1 - half ** 2))
        for c in ((a + b) / 2 + away, (a + b) / 2 - away):
            angle = np.angle((b - c) / (a - c))
            if sweep and angle < -1e-12:
                angle += 2 * np.pi
            elif not sweep and angle > 1e-12:
                angle -= 2 * np.pi
            if half > 1 - 1e-12:
                angle = np.pi if sweep else -np.pi
            if (abs(angle) >= np.pi - 1e-9) == bool(large) or half > 1 - 1e-12:
                break
        self.segments.append(("A", self.here, end, c, (rx, ry, turn), angle))
        self.here = end


def number(m, x):
    """A number as text."""
    form = m.integer(0, 7)
    text = repr(round(x, 3))
    if form == 6:       # many digits
        return f"{x:.{m.integer(6, 16)}f}"
    if form == 7 and not text.startswith(("-", "1e")):
        return m.pick(["0", "00", "0000000"]) + text
    if form == 0 and x == int(x):
        text = str(int(x))
    elif form == 1:
        text = f"{x:.3e}" if m.chance() else f"{x:.3E}"
    elif form == 2 and text.startswith(("0.", "-0.")):
        text = text.replace("0.", ".", 1)
    elif form == 3 and not text.startswith("-"):
        text = "+" + text
    if text.endswith(".0") and text[-3:-2].isdigit() and m.chance():
        text = text[:-2]
    return text


def join(m, words):
    """Numbers with the separators the grammar allows, and the numbers they read as."""
    out = ""
    for i, word in enumerate(words):
        if i:
            previous = words[i - 1]
            none = word[0] in "+-" or (word[0] == "." and ("." in previous or "e" in previous.lower()))
            out += m.pick([" ", ",", " , ", ", ", "\n", "\t", "  "] + (["", "", ""] if none else []))
        out += word
    return out


def data(m, anchors=True):
    """Random path data and the segments it defines."""
    reader, text, seen = Reader(), "", []

    def emit(command, groups):
        nonlocal text
        words, last = [], "L" if command == "M" else "l" if command == "m" else command
        for i, values in enumerate(groups):
            shown = []
            flags = command.upper() == "A"
            for j, v in enumerate(values):
                shown.append(str(v) if flags and j in (3, 4) else number(m, v))
            values = [float(w) for w in shown]
            if flags and m.chance(0.3):
                shown[3:6] = [shown[3] + shown[4] + shown[5]]      # flags need no separator
            words += shown
            reader.run(command if i == 0 else last, values)
        text += m.pick(["", "", " ", "\n", " "]) + command + m.pick(["", "", " ", " "]) + join(m, words)

    x = lambda: m.pick([m.real(-20, 20), m.real(-20, 20), float(m.integer(-20, 20)), m.real(-1, 1)])
    # A corner of known size tells the scaling apart
    emit(m.pick("Mm"), [(x(), x())])
    emit("h", [(float(m.integer(10, 40)),)])
    emit("v", [(float(m.integer(10, 40)),)])
    previous = "v"
    for _ in range(m.integer(1, 10)):
        command = m.pick("MmLlHhVvCcSsQqTtAaZzCcSsQqTtAa")
        kind = command.upper()
        size = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "A": 7, "Z": 0}[kind]
        n = 1 if kind == "Z" or m.chance(0.6) else m.integer(2, 3)
        groups = []
        for _ in range(n):
            if kind == "A":
                r = m.pick([(m.real(0.5, 30), m.real(0.5, 30)), (m.real(5, 30),) * 2, (m.real(0.1, 1),) * 2])
                if m.chance(0.05):
                    r = m.pick([(0.0, r[1]), (r[0], 0.0), (0.0, 0.0)])
                if m.chance(0.2):
                    r = (m.pick([1, -1]) * r[0], m.pick([1, -1]) * r[1])
                end = (0.0, 0.0) if command == "a" and m.chance(0.08) else (x(), x())
                groups.append(r + (m.pick([0.0, 0.0, m.real(-90, 200)]), m.integer(0, 1), m.integer(0, 1)) + end)
            else:
                groups.append(tuple(x() for _ in range(size)))
        emit(command, groups)
        seen.append((command, previous, n > 1))
        previous = command
    return text, reader.segments, seen


def parsed(path):
    """Segments of a matplotlib path, without null lines."""
    out, here, start = [], None, None
    V = path.vertices[:, 0] + 1j * path.vertices[:, 1]
    codes = path.codes
    i = 0
    while i < len(V):
        code = codes[i]
        if code == 1:
            here = start = V[i]
            out.append(("M", here))
        elif code == 2:
            if abs(V[i] - here) > NULL:
                out.append(("L", here, V[i]))
            here = V[i]
        elif code in (3, 4):
            kind, n = ("Q", 2) if code == 3 else ("C", 3)
            assert list(codes[i:i + n]) == [code] * n, "curve codes"
            out.append((kind, here) + tuple(V[i:i + n]))
            here = V[i + n - 1]
            i += n - 1
        elif code == 79:
            if abs(here - start) > NULL:
                out.append(("L", here, start))
            out.append(("Z", start, start))
            here = start
        i += 1
    return out


def compare(m, segments, path, label):
    """Check path against segments, up to a scaling, a shift and a vertical flip."""
    got = parsed(path)
    want = []
    size = abs(got[1][2] - got[1][1]) / abs(segments[1][2] - segments[1][1])
    for s in segments:
        if s[0] == "Z" and abs(s[1] - s[2]) * size > NULL:
            want.append(("L", s[1], s[2]))
        if s[0] == "L" and abs(s[1] - s[2]) * size <= NULL:
            continue
        want.append(s if s[0] != "Z" else ("Z", s[2], s[2]))
    p, q = [s[1] for s in got[:3]], [s[1] for s in want[:3]]
    p, q = p + [got[2][2]], q + [want[2][2]]
    scale = abs(p[2] - p[1]) / abs(q[2] - q[1])
    m.check(scale > 0, f"{label}: scaling")
    shift = p[1] - scale * np.conj(q[1])
    place = lambda z: scale * np.conj(z) + shift
    tol = 2e-6
    m.check(abs(p[3] - place(q[3])) < tol and abs(p[2] - place(q[2])) < tol, f"{label}: scaling is not uniform")
    k = 0
    for s in want:
        if s[0] == "A":
            k = arc(m, s, got, k, place, scale, label)
            continue
        m.check(k < len(got), f"{label}: {s} is missing")
        g = got[k]
        m.eq(g[0], s[0], f"{label}: kind of segment {k} ({s})")
        m.check(all(abs(place(b) - a) < tol for a, b in zip(g[1:], s[1:])),
                f"{label}: segment {k}: {g}, expected {tuple(place(b) for b in s[1:])}")
        k += 1
    m.eq(k, len(got), f"{label}: number of segments")
    ends = np.array([z for s in got for z in s[1:]])
    m.check(np.abs(ends.real).max() <= 0.5 + 1e-6 and np.abs(ends.imag).max() <= 0.5 + 1e-6,
            f"{label}: outside the unit square")
    m.check(max(np.ptp(ends.real), np.ptp(ends.imag)) > 0.05, f"{label}: too small")


def arc(m, s, got, k, place, scale, label):
    """Consume the curves of an arc."""
    _, start, end, centre, (rx, ry, turn), angle = s
    back = lambda z: np.conj((z - place(0)) / scale)
    flat = lambda z: (z * turn).real / rx + 1j * (z * turn).imag / ry
    covered, here = 0.0, flat(start) - centre
    t = np.linspace(0, 1, 9)
    m.check(k < len(got) and abs(place(start) - got[k][1]) < 2e-6, f"{label}: start of an arc")
    while abs(covered) < abs(angle) - 1e-6:
        m.check(k < len(got) and got[k][0] == "C", f"{label}: arc {s} covers {covered} of {angle}")
        a, b, c, d = (back(z) for z in got[k][1:])
        curve = a * (1 - t) ** 3 + 3 * b * t * (1 - t) ** 2 + 3 * c * t * t * (1 - t) + d * t ** 3
        z = np.array([flat(p) - centre for p in curve])
        slack = 2e-3 + 1e-5 / (scale * min(rx, ry))
        m.check(np.abs(np.abs(z) - 1).max() < slack, f"{label}: arc {s} leaves its ellipse: {np.abs(z)}")
        m.check(abs(z[0] - here) < slack, f"{label}: arc {s} is interrupted")
        covered += np.angle(z[1:] / z[:-1]).sum()
        here = z[-1]
        k += 1
    m.close(covered, angle, f"{label}: angle of the arc {s}", 1e-3 + 1e-4 / (scale * min(rx, ry)))
    m.check(abs(got[k - 1][-1] - place(end)) < 2e-6, f"{label}: end of the arc {s}")
    m.count("arc")
    return k


def paths(m):
    text, segments, seen = data(m)
    m.event(repr(text))
    path = svg_to_path(text)
    compare(m, segments, path, f"path {text!r}")
    for key in seen:
        m.seen(*key)


def markers(m):
    """Every built-in marker has an outline of its own in the unit square."""
    outlines = {}
    for marker in Marker:
        path = Marker.path(marker)
        V = np.asarray(path.vertices, float)
        m.check(np.isfinite(V).all() and np.abs(V).max() <= 0.5 + 1e-6, f"outline of {marker!r}")
        outlines[V.tobytes()] = marker
        m.check(Marker.path(int(marker)) is path or np.array_equal(Marker.path(int(marker)).vertices, V),
                f"outline of marker number {int(marker)}")
        m.seen(marker.name)
    m.eq(len(outlines), len(list(Marker)), "distinct outlines")
    m.event("markers")


FIXED = [markers]
RANDOM = [(paths, 500, 25000)]
