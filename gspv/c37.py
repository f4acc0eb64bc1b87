"""C37 — rendering leaves recording and array tracking as they were."""
import numpy as np

from . import env, scene
from .env import backend, glm, gsp
from .subject import KINDS, Sheet, Subject

ID = "C37"
RULE = ("random sequences of successful and failing renders of visuals of every kind (all forms of data and matrices, recording "
        "on and off, the backend's tracker, another one or none), resizes and canvas renders, mixed with creation of and "
        "writes to tracked arrays: queue contents, the active tracker class, the trackers of new arrays, and the bytes "
        "their buffers receive, after every step; non-trivial = distinct (visual, step, recording, tracker) combinations")
MIN = 5000
GIVEN = (ValueError, TypeError, AttributeError, IndexError, KeyError, NotImplementedError, RuntimeError)


class Recorder:
    """Another tracker."""

    def __init__(self, array):
        self.array = array
        self.mirror = None if array is None else bytearray(np.ascontiguousarray(array).tobytes())

    def set_data(self, offset, data):
        self.mirror[offset:offset + len(bytes(data))] = bytes(data)


def content(queue):
    return [(c.classname, c.methodname, c.parameters.get("id"), c.id) for c in queue]


class Arrays:
    """Tracked arrays and what their trackers have to hold."""

    def __init__(self, m):
        self.m, self.all = m, []

    def create(self, tracker):
        m = self.m
        n = m.integer(1, 6)
        maker = m.pick([lambda: glm.vec2(n), lambda: glm.vec3(n), lambda: glm.vec4(n),
                        lambda: np.zeros((n, 3)).view(glm.ndarray.tracked)])
        Z = maker()
        held = env.tracker(Z)
        if tracker is None:
            self.m.check(held is None or not isinstance(held, (env.TRACKER, Recorder)), f"no tracker is wanted, got {held}")
        else:
            m.check(isinstance(held, tracker), f"the tracker of a new array is {held}, not a {tracker}")
        self.all.append((Z, held))
        self.write()

    def write(self):
        if not self.all:
            return
        Z, held = self.m.pick(self.all)
        i = self.m.integer(0, len(Z) - 1)
        value = np.float32(self.m.real(-5, 5))
        how = self.m.pick(["item", "all", "part", "add"])
        if how == "item":
            Z[i] = value
        elif how == "all":
            Z[...] = value
        elif how == "part":
            Z[i:, 0] = value
        else:
            Z += value
        self.look("a write")

    def look(self, label):
        for Z, held in self.all:
            if isinstance(held, env.TRACKER):
                with env.quiet():
                    got = np.asarray(held.gsp_buffer).tobytes()
                self.m.check(got == np.asarray(Z).tobytes(), f"after {label} the buffer of an array does not follow it")
            elif isinstance(held, Recorder):
                self.m.check(bytes(held.mirror) == np.asarray(Z).tobytes(), f"after {label} a tracker does not follow its array")


def failing(m, sheet):
    """A visual that cannot be rendered, and why."""
    V = backend.visual
    n = m.integer(4, 9)
    P = m.rng.uniform(-0.9, 0.9, (n * 3, 3)).astype(np.float32)
    each = m.rng.uniform(0.1, 1, (n * 3, 4)).astype(np.float32)
    one = gsp.core.Color(1., 0., 0., 1.)
    style = gsp.core.LineStyle.solid, gsp.core.LineJoin.round
    broken = gsp.transform.Out("nothing")
    makers = {
        "vertex colours of Paths": lambda: V.Paths(P, 3, each, 1.0, *style, gsp.core.LineCap.round),
        "vertex colours of Polygons": lambda: V.Polygons(P, 3, one, each, 1.0, *style),
        "vertex fills of Polygons": lambda: V.Polygons(P, 3, each, one, 1.0, *style),
        "unknown variable of Points": lambda: V.Points(P, 10.0, broken, one, 1.0),
        "unknown variable of Pixels": lambda: V.Pixels(P, broken),
        "unknown size of Points": lambda: V.Points(P, broken, one, one, 1.0),
        "unknown width of Segments": lambda: V.Segments(P[:2 * n].reshape(n, 2, 3), gsp.core.LineCap.round, one, broken),
        "unknown angle of Markers": lambda: V.Markers(P, gsp.core.Marker.square, 10.0, None, broken, one, one, 1.0),
        "unknown width of Paths": lambda: V.Paths(P, 3, one, broken, *style, gsp.core.LineCap.round),
        "unknown width of Polygons": lambda: V.Polygons(P, 3, one, one, broken, *style),
        "indices beyond the vertices": lambda: V.Paths(P, [[0, 1], [2, 99]], one, 1.0, *style, gsp.core.LineCap.round),
    }
    name = m.pick(list(makers))
    return makers[name](), name


def sequences(m):
    tracked = m.pick(["backend", "backend", "backend", "other", "none"])
    sheet = Sheet(m, m.integer(1, 2))
    arrays = Arrays(m)
    subjects = [Subject(m, m.pick(KINDS), n=m.integer(1, 8)) for _ in range(m.integer(1, 3))]
    bad, why = failing(m, sheet)
    tracker = {"backend": env.TRACKER, "other": Recorder, "none": None}[tracked]
    glm.ndarray.tracked.__tracker_class__ = tracker
    arrays.create(tracker)
    recording = m.chance(0.8)
    gsp.io.record(recording)
    queue = env.new_queue()
    for step in range(m.integer(3, 12)):
        what = m.pick(["render", "render", "render", "fail", "fail", "wrong viewport", "create", "write", "resize", "canvas",
                       "modify", "recording", "bad matrix"])
        before = content(queue)
        label = f"{what} at step {step} (recording {recording}, tracker {tracked})"
        subject = m.pick(subjects)
        viewport = m.pick(sheet.viewports)
        if what == "render":
            matrices = m.pick([lambda: scene.matrices(m), lambda: ()])()
            named = dict(zip(("model", "view", "proj"), matrices)) if m.chance(0.3) else {}
            # The matrices are tracked arrays of their own
            before = content(queue)
            subject.visual.render(viewport, *(() if named else matrices), **named)
            after = content(queue)
            m.eq(after[:len(before)], before, f"{label}: commands recorded before")
            new = after[len(before):]
            m.eq([c[:3] for c in new], [(subject.kind, "render", subject.visual.id)] if recording else [],
                 f"{label} of {subject.kind} {sorted(subject.forms)}: commands recorded")
            if recording:
                command = list(queue)[-1]
                m.eq(command.parameters.get("viewport(id)"), viewport.id, f"{label}: viewport recorded")
            m.seen(subject.kind, what, recording, tracked, len(matrices))
        elif what in ("fail", "bad matrix", "wrong viewport"):
            if what == "fail":
                M = scene.matrices(m)
                visual, call, text = bad, lambda: bad.render(viewport, *M), why
            elif what == "bad matrix":
                M = m.pick([np.zeros((4, 3), np.float32), np.zeros(5, np.float32)])
                # Rendered again properly afterwards
                visual, call, text = subject.visual, lambda: subject.visual.render(viewport, M), what
            else:
                wrong = m.pick([None, 3, "viewport", sheet.canvas])
                visual, call, text = subject.visual, lambda: subject.visual.render(wrong, *M), f"rendering on {wrong!r}"
                M = scene.matrices(m)
            before = content(queue)
            failed = False
            try:
                call()
            except GIVEN as error:
                failed = True
                m.event(label, text, type(error).__name__)
            if what == "fail":
                m.check(failed, f"{label}: {text} is rendered")
            after = content(queue)
            m.eq(after[:len(before)], before, f"{label}: commands recorded before")
            m.check(len(after) - len(before) <= (1 if recording else 0), f"{label}: {text} records {after[len(before):]}")
            m.seen(text, failed, recording, tracked)
            if what == "bad matrix":
                subject.visual.render(viewport, *scene.matrices(m))
        elif what == "create":
            arrays.create(tracker)
        elif what == "write":
            arrays.write()
        elif what == "resize":
            try:
                sheet.resize()
            except GIVEN:       # of the visual that cannot be rendered
                pass
        elif what == "canvas":
            if m.chance(0.3):       # one that shows nothing
                backend.core.Canvas(m.integer(1, 50), m.integer(1, 50), 100.0).render(None)
            else:
                sheet.canvas.render(None) if m.chance() else sheet.figure.canvas.draw()
        elif what == "modify":
            subject.modify(m)
        else:
            recording = not recording
            gsp.io.record(recording)
        m.event(label)
        m.check(glm.ndarray.tracked.__tracker_class__ is tracker,
                f"{label}: the tracker is {glm.ndarray.tracked.__tracker_class__}")
        arrays.look(label)
        # Whether recording is on shows in what a new object leaves
        before = content(queue)
        gsp.core.Viewport(gsp.core.Canvas(10, 10, 10.0), 0, 0, 1, 1, gsp.core.Color(0., 0., 0., 1.))
        new = content(queue)[len(before):]
        m.eq([c[0] for c in new], ["Canvas", "Viewport"] if recording else [], f"{label}: commands recorded afterwards")
        if m.chance(0.3):
            arrays.create(tracker)
    m.seen("sequence", tuple(sorted(s.kind for s in subjects)), tracked)


def writes(m):
    """Arrays given to a visual stay tracked: later writes reach the queue."""
    kind = m.pick(["Pixels", "Points", "Markers"])
    sheet = Sheet(m, 1)
    n = m.integer(1, 8)
    P = glm.vec3(n)
    P[...] = m.rng.uniform(-0.9, 0.9, (n, 3))
    one = gsp.core.Color(1., 0., 0., 1.)
    V = backend.visual
    visual = {"Pixels": lambda: V.Pixels(P, one), "Points": lambda: V.Points(P, 10.0, one, one, 1.0),
              "Markers": lambda: V.Markers(P, gsp.core.Marker.square, 20.0, None, 0.0, one, one, 1.0)}[kind]()
    buffer = env.tracker(P).gsp_buffer
    queue = env.new_queue()
    for step in range(m.integer(1, 6)):
        visual.render(sheet.viewports[0], *scene.matrices(m))
        before = len(list(queue))
        i = m.integer(0, n - 1)
        P[i] = [m.real(-0.9, 0.9) for _ in range(3)]
        new = list(queue)[before:]
        m.eq([(c.classname, c.methodname, c.parameters["id"]) for c in new], [("Buffer", "set_data", buffer.id)],
             f"{kind}, step {step}: commands a write leaves after rendering")
        with env.quiet():
            m.check(np.asarray(buffer).tobytes() == np.asarray(P).tobytes(), f"{kind}, step {step}: buffer of the positions")
        m.event(kind, step)
    m.seen("writes", kind, n)


RANDOM = [(sequences, 250, 8000), (writes, 60, 1000)]
