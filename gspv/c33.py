"""C33 — rendering is repeatable, current and free of side effects."""
import copy

import numpy as np

from . import scene
from .subject import KINDS, Sheet, Subject, compare

ID = "C33"
RULE = ("random sequences of renders (all or some matrices given, several viewports on one or two canvases), in-place data "
        "changes, resizes and plain redraws over one to three visuals: after every step everything every viewport shows "
        "is compared with what the latest render calls have to show, and all objects given to the visuals with their "
        "content before; non-trivial = distinct (visual, kind of step, matrices given, number of viewports) combinations")
MIN = 5000


def given(value):
    """Content of what was given, to be compared later."""
    if isinstance(value, (list, tuple)):
        return copy.deepcopy(value)
    return np.array(value, copy=True)


def unchanged(m, objects, label):
    for name, obj, before in objects:
        if isinstance(obj, (list, tuple)):
            m.check(obj == before, f"{label}: {name} is changed")
        else:
            m.check(np.array_equal(np.array(obj), before), f"{label}: {name} is changed from {before.tolist()} to "
                    f"{np.array(obj).tolist()}")


class Shown:
    """What a visual shows on a viewport: its matrices and the data of the latest render."""

    def __init__(self, sheet, k, subject, matrices):
        self.sheet, self.k, self.subject, self.matrices = sheet, k, subject, matrices
        self.refresh()

    def refresh(self):
        self.drawn = self.subject.expected(self.matrices, self.sheet.rect(self.k), self.sheet.dpi)


def sequences(m):
    sheets = [Sheet(m, m.integer(1, 2)) for _ in range(m.pick([1, 1, 1, 2]))]
    places = [(s, k) for s in sheets for k in range(len(s.viewports))]
    # One kind of visual per artist layer, so that blocks of shapes are told apart
    kinds = m.pick([[m.pick(KINDS)], [m.pick(["Segments", "Paths"]), m.pick(["Points", "Markers", "Pixels"])],
                    [m.pick(["Segments", "Paths"]), m.pick(["Polygons", "Points"])]])
    subjects = [Subject(m, kind, n=m.integer(1, 8), moved=0.4) for kind in kinds]
    shown = {}
    for step in range(m.integer(2, 9)):
        what = m.pick(["render", "render", "render", "again", "modify", "resize", "draw"])
        objects = [(name, obj, given(obj)) for s in subjects for name, obj in s.given.items()]
        i = m.integer(0, len(subjects) - 1)
        subject = subjects[i]
        label = f"{what} of {subject.kind} at step {step}"
        if what == "modify" and shown:
            name = subject.modify(m)
            label += f" ({name})"
            objects = []
        elif what == "resize":
            sheet = m.pick(sheets)
            sheet.resize()
            for (s, k, j), now in shown.items():
                if s is sheet:
                    now.refresh()
        elif what == "draw":
            m.pick(sheets).figure.canvas.draw()
        else:
            sheet, k = m.pick(places)
            key = sheet, k, i
            model, view, proj = matrices = scene.matrices(m)
            visual, viewport = subject.visual, sheet.viewports[k]
            if key in shown and (what == "again" or m.chance(0.3)):
                old = shown[key].matrices
                form = m.pick(["none", "model", "proj", "view", "model and view", "None"])
                if form == "none":
                    visual.render(viewport)
                    matrices = old
                elif form == "None":
                    visual.render(viewport, None, None, proj)
                    matrices = old[0], old[1], proj
                elif form == "model":
                    visual.render(viewport, model)
                    matrices = model, old[1], old[2]
                elif form == "proj":
                    visual.render(viewport, proj=proj)
                    matrices = old[0], old[1], proj
                elif form == "view":
                    visual.render(viewport, view=view)
                    matrices = old[0], view, old[2]
                else:
                    visual.render(viewport, model, view)
                    matrices = model, view, old[2]
                label += f" with {form} given"
                if not visible(subject, matrices):
                    return
            else:
                form = "all"
                objects += [("matrix", M, given(M)) for M in matrices]
                visual.render(viewport, *matrices)
            shown[key] = Shown(sheet, k, subject, matrices)
            m.seen(subject.kind, what, form, len(places), len(subjects))
        m.seen(subject.kind, what, len(places))
        m.event(label)
        unchanged(m, objects, label)
        look(m, sheets, subjects, shown, label)


def visible(subject, matrices):
    """No vertex near or behind the eye."""
    P = subject.values["positions"]
    P = np.concatenate([P, np.ones(P.shape[:-1] + (1,))], axis=-1) if P.shape[-1] == 3 else \
        np.concatenate([P, np.zeros(P.shape[:-1] + (1,)), np.ones(P.shape[:-1] + (1,))], axis=-1)
    from .subject import combined
    return (P @ combined(matrices).T)[..., 3].min() > 0.3


def look(m, sheets, subjects, shown, label):
    """Compare everything drawn."""
    for sheet in sheets:
        for k, (background, shapes) in sheet.shapes().items():
            blocks = [(j, shown[sheet, k, j]) for j in range(len(subjects)) if (sheet, k, j) in shown]
            m.eq(len(shapes), sum(len(b.drawn) for _, b in blocks), f"{label}: number of shapes in viewport {k}")
            # Lines are painted over the other visuals
            blocks.sort(key=lambda b: b[1].subject.kind in ("Segments", "Paths"))
            at = 0
            for j, now in blocks:
                part = shapes[at:at + len(now.drawn)]
                at += len(now.drawn)
                compare(m, now.subject, now.drawn, part, f"{label}: {now.subject.kind} in viewport {k}", sheet.clip(k))


RANDOM = [(sequences, 150, 5000)]
