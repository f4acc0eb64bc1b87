"""C35 — attributes computed from rendering outputs see the current projection."""
import matplotlib
import numpy as np

from . import scene
from .env import glm
from .subject import KINDS, Sheet, Subject, compare, T

ID = "C35"
RULE = ("visuals of every kind whose sizes, widths, angles and colours are random expressions (arithmetic, accessors, "
        "colormaps with fixed or dynamic bounds) of output variables, over renders with changing matrices, viewports, data "
        "and canvas sizes: every attribute drawn against the expression's value on independently projected positions, "
        "and the variables read back; non-trivial = distinct (visual, attribute, expression shape, step) combinations")
MIN = 4000
MAPS = ["magma", "viridis", "gray", "jet", "hsv", "plasma_r", "RdBu", "tab10"]


class Expression:
    """A transform and what it is worth: shape (count, components)."""

    def __init__(self, transform, value, text):
        self.t, self.value, self.text = transform, value, text


class Computed(Subject):
    def __init__(self, m, kind, n, matrices):
        self.all = matrices
        self.expressions = {}
        self.texts = {}
        super().__init__(m, kind, n)

    # -- output variables ---------------------------------------------------
    def variable(self, name, matrices):
        Q = self.screen(matrices)
        if name == "screen[positions]":
            if self.kind in ("Points", "Markers"):
                Q = np.concatenate([Q[..., :2], 1 - Q[..., 2:]], axis=-1)
            return Q
        if name == "screen[segments]":
            return -Q[..., 2].mean(axis=1)
        return np.array([Q[k].mean(axis=0) for k in self.members])

    @property
    def source(self):
        return {"Segments": "screen[segments]", "Paths": "screen[paths]", "Polygons": "screen[polygons]"}.get(
            self.kind, "screen[positions]")

    # -- expressions ----------------------------------------------------------
    def leaf(self):
        m, name = self.m, self.source
        if self.kind == "Segments":
            return Expression(T.Out(name), lambda M: self.variable(name, M)[:, None], "depth")
        k = m.pick([0, 1, 2, 2, 2])
        form = m.pick(["key", "key", "accessor", "component"])
        if form == "key":
            t = T.Out(f"{name}.{'xyz'[k]}")
        elif form == "component":
            t = T.Out(f"{name}.{'rgb'[k]}")
        else:
            t = getattr(T, "XYZ"[k])()(T.Out(name))
        return Expression(t, lambda M: self.variable(name, M)[:, k:k + 1], f"{form}{k}")

    def raw(self):
        """An expression of one component."""
        m = self.m
        a = self.leaf()
        for _ in range(m.pick([0, 0, 1, 1, 2])):
            what = m.pick(["scale", "shift", "negate", "sum", "difference", "divide"])
            old, number = a, round(m.real(0.3, 2), 3)
            if what == "scale":
                t = m.pick([lambda: number * old.t, lambda: old.t * number])()
                a = Expression(t, lambda M, old=old, k=number: old.value(M) * k, old.text + "*")
            elif what == "shift":
                t = m.pick([lambda: number + old.t, lambda: old.t + number])()
                a = Expression(t, lambda M, old=old, k=number: old.value(M) + k, old.text + "+")
            elif what == "negate":
                a = Expression(number - old.t, lambda M, old=old, k=number: k - old.value(M), old.text + "~")
            elif what == "divide":
                a = Expression(old.t / number, lambda M, old=old, k=number: old.value(M) / k, old.text + "/")
            else:
                other = self.leaf()
                if len(np.shape(old.value(self.all[0]))) != 2 or "accessor" in old.text + other.text:
                    continue        # one has a row less than the other
                sign = 1 if what == "sum" else -1
                t = old.t + other.t if sign > 0 else old.t - other.t
                a = Expression(t, lambda M, old=old, other=other, s=sign: old.value(M) + s * other.value(M),
                               f"({old.text}{'+' if sign > 0 else '-'}{other.text})")
        return a

    def ranged(self, low, high):
        """An expression with values between bounds (for all the matrices to be used)."""
        a = self.raw()
        values = np.concatenate([a.value(M) for M in self.all])
        v0, v1 = values.min(), values.max()
        k = float(min((high - low) * 0.6 / max(v1 - v0, 1e-6), 60))
        b = float((high + low) / 2 - k * (v0 + v1) / 2)
        t = self.m.pick([lambda: k * a.t + b, lambda: b + a.t * k])()
        return Expression(t, lambda M: (a.value(M) * k + b)[:, 0], a.text + "*+")

    def keep(self, name, expression):
        self.expressions[name] = expression
        self.values[name] = None
        self.forms.add("computed")
        self.texts[name] = expression.text
        return expression.t

    def scalar(self, name, count, low, high):
        if self.m.chance(0.35):
            return super().scalar(name, count, low, high)
        return self.keep(name, self.ranged(low, high))

    def color(self, name, count):
        m = self.m
        if m.chance(0.3):
            return super().color(name, count)
        if m.chance(0.25) and self.kind not in ("Segments",):
            # Coordinates as components
            keys = "".join(m.pick("xyz") for _ in range(4))
            index = ["xyz".index(c) for c in keys]
            values = np.concatenate([self.variable(self.source, M)[:, index] for M in self.all])
            k = float(0.9 / max(values.max() - values.min(), 0.9))
            b = float(0.5 - k * (values.max() + values.min()) / 2)
            t = T.Out(f"{self.source}.{keys}") * k + b
            return self.keep(name, Expression(
                t, lambda M: self.variable(self.source, M)[:, index] * k + b, "components"))
        a = self.raw()
        cmap = m.pick(MAPS)
        low = high = None
        form = m.pick(["fixed", "dynamic", "minimum", "maximum"])
        values = a.value(self.all[0])
        middle, reach = float(values.mean()), float(max(np.ptp(values), 0.2))
        if form in ("fixed", "minimum"):
            low = round(middle - reach * m.real(0.2, 1.5), 4)
        if form in ("fixed", "maximum"):
            high = round(middle + reach * m.real(0.2, 1.5), 4)
        if low is None and high is None and m.chance(0.5):
            t = T.Colormap(cmap)(a.t)
        else:
            t = T.Colormap(cmap, low, high)(a.t)
        return self.keep(name, Expression(t, lambda M: Mapped(cmap, low, high, a.value(M)[:, 0]), f"{form} {a.text}"))

    def evaluated(self, name, matrices):
        return self.expressions[name].value(matrices)

    def expected(self, matrices, rect, dpi):
        drawn = super().expected(matrices, rect, dpi)
        for d in drawn:
            d.choices = {}
        for name, attribute in (("colors", "fill"), ("fill_colors", "fill"), ("line_colors", "stroke")):
            if name in self.expressions:
                v = self.evaluated(name, matrices)
                if isinstance(v, Mapped):
                    for d in drawn:
                        d.choices[attribute] = v.choices[d.item]
        return drawn

    def valid(self, matrices):
        """Whether the values make sense with these matrices and the current data."""
        for name, e in self.expressions.items():
            v = e.value(matrices)
            if isinstance(v, Mapped):
                if not v.clear:
                    return False
            elif e.text == "components":
                if v.min() < 0 or v.max() > 1:
                    return False
            elif name != "angles" and v.min() < 0.1:
                return False
        return True


class Mapped:
    """Colours of values; unclear ones lie next to the limit between two colours."""

    def __init__(self, name, low, high, values):
        low = values.min() if low is None else low
        high = values.max() if high is None else high
        self.clear = high - low > 1e-3 or len(values) == 1 or True
        if high - low < 1e-3:
            self.clear = False
            high = low + 1
        relative = (values - low) / (high - low)
        cmap = matplotlib.colormaps[name]
        table = np.array([cmap(i) for i in range(cmap.N)])
        slack = 3e-6 * max(1, np.abs(values).max()) / (high - low) * cmap.N
        place = relative * cmap.N
        self.choices = []
        for p in place:
            picks = [int(np.clip(np.floor(p + s), 0, cmap.N - 1)) for s in (0, -slack, slack)]
            self.choices.append(table[picks])

    def __getitem__(self, i):
        return self.choices[i][0]


def resolve(drawn, shapes):
    """Between two colours either is fine."""
    for d, s in zip(drawn, shapes):
        for attribute, choices in d.choices.items():
            got = getattr(s, attribute)
            if got is not None:
                setattr(d, attribute, choices[int(np.argmin(np.abs(choices - got).max(axis=1)))])


def sequences(m):
    sheet = Sheet(m, m.integer(1, 2))
    kind = m.pick(KINDS)
    matrices = [scene.matrices(m) for _ in range(m.integer(1, 4))]
    if m.chance(0.25):      # the scene moves by very little
        model, view, proj = matrices[-1]
        step = 10 ** m.real(-5, -3)
        for _ in range(m.integer(1, 2)):
            model = (glm.translate([m.real(-step, step) for _ in range(3)]) @ model).astype(np.float32)
            matrices.append((model, view, proj))
    subject = Computed(m, kind, m.pick([1, 2, 3, 5, 8, 15]), matrices)
    m.event(kind, subject.texts)
    shown = {}
    for step, M in enumerate(matrices):
        k = m.integer(0, len(sheet.viewports) - 1)
        if not subject.valid(M):
            return
        subject.visual.render(sheet.viewports[k], *M)
        shown[k] = M, subject.expected(M, sheet.rect(k), sheet.dpi)
        label = f"{kind} with {subject.texts}, render {step}"
        everything(m, sheet, subject, shown, label)
        variables(m, subject, M, label)
        for name, text in subject.texts.items():
            m.seen(kind, name, text, min(step, 2))
        what = m.pick(["none", "modify", "resize"])
        if what == "modify":
            subject.modify(m)
            if step + 1 < len(matrices) and not subject.valid(matrices[step + 1]):
                return
        elif what == "resize":
            if not all(subject.valid(M) for M, _ in shown.values()):
                return
            sheet.resize()
            for j, (M, _) in list(shown.items()):
                shown[j] = M, subject.expected(M, sheet.rect(j), sheet.dpi)
            everything(m, sheet, subject, shown, label + ", resized")


def everything(m, sheet, subject, shown, label):
    shapes = sheet.shapes()
    for k, (M, drawn) in shown.items():
        resolve(drawn, shapes[k][1])
        compare(m, subject, drawn, shapes[k][1], f"{label}, viewport {k}", sheet.clip(k))


def variables(m, subject, M, label):
    for name in {"screen[positions]", subject.source}:
        got = subject.visual.get_variable(name)
        m.close(got, subject.variable(name, M), f"{label}: variable {name}", 1e-5)


RANDOM = [(sequences, 350, 10000)]
