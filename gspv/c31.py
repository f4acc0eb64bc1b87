"""C31 — each item is drawn once, where it projects, with its own attributes."""
import numpy as np

from . import scene
from .subject import KINDS, Sheet, Subject, compare

ID = "C31"
RULE = ("random visuals of every kind (1 to 30 items; positions and attributes as arrays, buffers, tracked arrays, views, "
        "lists, uniform or per item) rendered with all kinds of matrices: every path the renderer receives is compared with "
        "the item's projected position, own colours, width and size computed from the definition; non-trivial = "
        "distinct (visual, matrices, data forms) combinations drawn")
MIN = 3000
MATRICES = ["identity", "affine", "ortho", "perspective", "camera", "mixed"]


def visuals(m, kinds=KINDS):
    sheet = Sheet(m, m.integer(1, 3))
    k = m.integer(0, len(sheet.viewports) - 1)
    subject = Subject(m, m.pick(kinds))
    kind = m.pick(MATRICES)
    matrices = scene.matrices(m, kind)
    subject.visual.render(sheet.viewports[k], *matrices)
    shapes = sheet.shapes()
    label = f"{subject.kind} ({sorted(subject.forms)}, {kind})"
    m.event(label, subject.n)
    drawn = subject.expected(matrices, sheet.rect(k), sheet.dpi)
    if compare(m, subject, drawn, shapes[k][1], label, sheet.clip(k)):
        m.seen(subject.kind, kind, tuple(sorted(subject.forms)))
    for other in shapes:
        if other != k:
            m.eq(len(shapes[other][1]), 0, f"{label}: shapes in another viewport")


def several(m):
    """Several visuals in a viewport, each drawn on its own."""
    sheet = Sheet(m, 1)
    subjects = [Subject(m) for _ in range(m.integer(2, 4))]
    matrices = [scene.matrices(m) for _ in subjects]
    order = m.rng.permutation(len(subjects))
    for i in order:
        subjects[i].visual.render(sheet.viewports[0], *matrices[i])
    shapes = sheet.shapes()[0][1]
    m.eq(len(shapes), sum(s.n for s in subjects), "number of shapes of several visuals")
    rest = list(shapes)
    # Kinds of artists may be interleaved, items of a visual stay together
    at = 0
    blocks = []
    for group in dict.fromkeys(s.group for s in shapes):
        m.count("group")
    for i in sorted(range(len(subjects)), key=lambda i: (zorder(subjects[i].kind), list(order).index(i))):
        block = rest[at:at + subjects[i].n]
        at += subjects[i].n
        blocks.append(block)
        compare(m, subjects[i], subjects[i].expected(matrices[i], sheet.rect(0), sheet.dpi), block,
                f"{subjects[i].kind} among {[s.kind for s in subjects]}", sheet.clip(0))
    m.seen("several", tuple(subjects[i].kind for i in order))


def far(m):
    """A scene far from the origin, in double precision, brought back by the model or the view."""
    sheet = Sheet(m, 1)
    away = np.array([m.pick([0.0, -1e4, 3e5, 1e6, 12345.25]) for _ in range(3)]) * m.pick([1, -1])
    subject = Subject(m, flat=not away[2], away=away)
    kind = m.pick(MATRICES)
    model, view, proj = (np.asarray(M, float) for M in scene.affine(m, kind))
    back = np.eye(4)
    back[:3, 3] = -away
    matrices = (model @ back, view, proj) if m.chance() else (back, view @ model, proj)
    label = f"{subject.kind} around {away} ({sorted(subject.forms)}, {kind})"
    m.event(label, subject.n)
    subject.visual.render(sheet.viewports[0], *matrices)
    drawn = subject.expected(matrices, sheet.rect(0), sheet.dpi)
    compare(m, subject, drawn, sheet.shapes()[0][1], label, sheet.clip(0))
    m.seen("far", subject.kind, kind, tuple(away), tuple(sorted(subject.forms)))


def large(m):
    """More items than fit in small integers."""
    sheet = Sheet(m, 1)
    kind = m.pick(KINDS)
    n = m.pick([256, 300, 1025, 1500]) if kind != "Markers" else m.pick([65, 130, 300])
    subject = Subject(m, kind, n=n)
    name = m.pick(MATRICES)
    matrices = scene.matrices(m, name)
    label = f"{kind}, {n} items ({sorted(subject.forms)}, {name})"
    subject.visual.render(sheet.viewports[0], *matrices)
    compare(m, subject, subject.expected(matrices, sheet.rect(0), sheet.dpi), sheet.shapes()[0][1], label, sheet.clip(0))
    m.event(label)
    m.seen("large", kind, n, name)


def zorder(kind):
    return 2 if kind in ("Segments", "Paths") else 1


RANDOM = [(visuals, 400, 12000), (several, 60, 2000), (far, 80, 2000), (large, 12, 300)]
