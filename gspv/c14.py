"""C14 — chaining and binding never modify the transforms involved."""
import numpy as np

from . import state
from .env import Object, backend, gsp
from .trans import T, UNITS, COLORMAPS, holder, lookup, values, variables

ID = "C14"
RULE = ("random programs of creation, chaining (of chains too), binding, re-binding attempts, copying, parameter "
        "changes and nested evaluation over accessors, measures, colormaps and outputs, against functional values "
        "composed in the harness; after every step the binding, chain, base, value and parameters of every other "
        "transform must be what they were; non-trivial = distinct (step, kinds in the chain)")
MIN = 3000


class Stage:
    """One link of a chain: kind and parameters."""

    def __init__(self, kind, **parameters):
        self.kind, self.parameters = kind, parameters

    def make(self):
        p = self.parameters
        if self.kind == "accessor":
            return getattr(T, p["key"].upper())() if p["short"] else T.Accessor(key=p["key"])
        if self.kind == "field":
            return T.Accessor(key=p["key"])
        if self.kind == "measure":
            return getattr(T, p["unit"])()
        if self.kind == "colormap":
            return T.Colormap(p["name"], p["vmin"], p["vmax"])
        return T.Out(p["name"])

    def apply(self, value, env):
        p = self.parameters
        if np.asarray(value).dtype.names and self.kind != "field":
            raise ValueError("structured values")
        if self.kind == "accessor":
            return np.asarray(value)[..., ("xyzw" if p["key"] in "xyzw" else "rgba").index(p["key"])]
        if self.kind == "field":
            return np.asarray(value)[p["key"]]
        if self.kind == "measure":
            value = np.asarray(value, dtype=float)
            factor = UNITS[p["unit"]](env["dpi"])
            if value.ndim and value.shape[-1] > 3:
                raise ValueError("not a measure")
            if value.ndim and value.shape[-1] == 3:
                return value * factor * np.array([1, 1, 0])
            return value * factor
        if self.kind == "colormap":
            return lookup(p["name"], value, p["vmin"], p["vmax"])
        return None


class Model:
    def __init__(self, stages, transform, base, bound=None, source=None):
        self.stages, self.t, self.base = stages, transform, base
        self.bound = bound          # value bound at the end, as an array
        self.held = source          # object bound

    def value(self, env):
        value = self.bound
        stages = self.stages
        if stages[-1].kind == "out":
            value, stages = env[stages[-1].parameters["name"]], stages[:-1]
        for stage in reversed(stages):
            value = stage.apply(value, env)
        return value

    def kinds(self):
        return "/".join(s.kind for s in self.stages) + ("+" if self.bound is not None else "")


def stage(m, first):
    kind = m.pick(["accessor", "measure", "colormap", "out", "field"])
    if kind == "out" and not first:
        kind = "accessor"
    if kind == "accessor":
        return Stage(kind, key=m.pick("xyzrgb"), short=m.chance(0.8))
    if kind == "field":
        return Stage(kind, key=m.pick(["position", "mass"]))
    if kind == "measure":
        return Stage(kind, unit=m.pick(list(UNITS)))
    if kind == "colormap":
        vmin, vmax = m.pick([(None, None), (0.0, None), (-1.0, 2.0), (0.0, 0.5)])
        return Stage(kind, name=m.pick(COLORMAPS), vmin=vmin, vmax=vmax)
    return Stage(kind, name=m.pick(["screen[positions]", "sizes", "fill_colors"]))


def chain(t):
    links = [t]
    while links[-1].next is not None and len(links) < 20:
        links.append(links[-1].next)
    return links


def evaluable(model, env):
    """Value the model predicts, or None when the chain makes no sense for these data."""
    if model.bound is None and model.stages[-1].kind != "out":
        return None
    try:
        with np.errstate(all="ignore"):
            return np.asarray(model.value(env))
    except Exception:
        return None


def audit(m, model, env, what, evaluate=True):
    links = chain(model.t)
    m.eq([type(x).__name__ for x in links],
         [{"field": "Accessor", "out": "Out", "colormap": "Colormap"}.get(s.kind) or
          (s.parameters["unit"] if s.kind == "measure" else
           s.parameters["key"].upper() if s.parameters["short"] else "Accessor") for s in model.stages],
         f"{what}: chain")
    m.check(model.t.base is model.base, f"{what}: base is {model.t.base!r}, not {model.base!r}")
    m.check(model.t.last is links[-1], f"{what}: last of the chain")
    m.eq(model.t.bound, model.bound is not None, f"{what}: bound")
    if model.held is not None:
        held = links[-1].buffer
        m.check(held is model.held or np.array_equal(held, model.held), f"{what}: bound value")
    else:
        m.check(links[-1].buffer is None, f"{what}: bound value of an unbound transform")
    for link in links[:-1]:
        m.check(link.buffer is None, f"{what}: value bound inside the chain")
    if not evaluate:
        return
    want = evaluable(model, env)
    if want is not None:
        got = model.t.evaluate(env)
        m.close(got, want, f"{what}: value", 1e-5)
        m.count("values")


def data(m, n):
    kind = m.pick(["rows", "rows", "vector", "scalar", "tuple", "fields"])
    if kind == "scalar":
        k = m.pick([m.integer(0, 9), m.real(-2, 2), 0])
        return k, np.asarray(k), kind
    if kind == "tuple":
        k = tuple(m.real(0, 2) for _ in range(3))
        return k, np.asarray(k), kind
    if kind == "fields":
        array = np.zeros(n, [("position", np.float32, 3), ("mass", np.float32)])
        array["position"] = m.rng.uniform(-1, 1, (n, 3))
        array["mass"] = m.rng.uniform(0, 1, n)
    else:
        array = values(m, (n, 3) if kind == "rows" else n)
    held, how = holder(m, array)
    return held, array.copy(), kind + " " + how


def programs(m):
    n = m.integer(1, 6)
    env = variables(m, n)
    pool = []

    def create():
        s = stage(m, True)
        t = s.make()
        pool.append(Model([s], t, t))

    for _ in range(m.integer(2, 4)):
        create()
    for _ in range(m.integer(4, 14)):
        step = m.pick(["create", "chain", "chain", "chain", "bind", "bind", "rebind", "copy", "copy", "colormap",
                       "evaluate", "buffer", "base"])
        a = m.pick(pool)
        changed = None
        before = len(pool)
        if step == "create":
            create()
        elif step == "chain":
            b = m.pick(pool)
            if a.stages[-1].kind == "out" or len(a.stages) + len(b.stages) > 6:
                continue
            t = a.t(b.t)
            m.check(t is not a.t and t is not b.t, "chaining returned one of the transforms")
            pool.append(Model(a.stages + b.stages, t, a.base, b.bound, b.held))
        elif step in ("bind", "rebind"):
            held, value, how = data(m, n)
            if a.stages[-1].kind == "out":
                continue
            if a.bound is not None:
                m.raises(ValueError, lambda: a.t(held), "binding a bound transform")
                m.seen("rebind", a.kinds())
                m.count("refused")
            else:
                t = a.t(held)
                m.check(t is not a.t, "binding returned the transform itself")
                pool.append(Model(a.stages, t, a.base, value, held))
        elif step == "copy":
            t = a.t.copy()
            m.check(t is not a.t, "a copy is the transform itself")
            pool.append(Model(a.stages, t, a.base, a.bound, a.held))
            # a copy shares no link with the original
            m.check(not set(map(id, chain(t))) & set(map(id, chain(a.t))), "a copy shares links with the original")
        elif step == "colormap" and a.stages[0].kind == "colormap":
            name = m.pick(COLORMAPS)
            a.t.set_colormap(name)
            parameters = dict(a.stages[0].parameters, name=name)
            a.stages = [Stage("colormap", **parameters)] + a.stages[1:]
            changed = a
        elif step == "base":
            b = m.pick(pool)
            t = T.Pixel()
            t.set_base(b.t)
            pool.append(Model([Stage("measure", unit="Pixel")], t, b.base))
        elif step == "buffer" and len(a.stages) == 1 and a.stages[0].kind != "out":
            held, value, how = data(m, n)
            a.t.set_buffer(held)
            a.bound, a.held = value, held
            changed = a
        elif step == "evaluate":
            if evaluable(a, env) is not None:
                a.t.evaluate(env)
        m.event(step, a.kinds())
        for model in pool:
            audit(m, model, env, f"after {step}: {model.kinds()}", model in (a, pool[-1]) or m.chance(0.2))
        m.seen(step, a.kinds(), before != len(pool))
    other = variables(m, n)
    for model in pool:
        want = evaluable(model, other)
        if want is not None:
            m.close(model.t.evaluate(other), want, f"{model.kinds()} with other variables", 1e-5)
        audit(m, model, env, f"at the end: {model.kinds()}")
        m.check(Object.objects.get(model.t.id) is model.t, f"{model.kinds()}: registered")


def operands(t):
    """Every transform an expression is made of."""
    found = []
    for link in chain(t):
        found.append(link)
        if isinstance(link, T.Operator):
            for operand in (link.left, link.right):
                if isinstance(operand, T.Transform):
                    found += operands(operand)
    return found


def expressions(m):
    """Copies of expressions and of what they are chained with share nothing that can be changed."""
    n = m.integer(1, 5)
    env = variables(m, n)

    def leaf():
        kind = m.integer(0, 3)
        if kind == 0:
            return getattr(T, m.pick("XYZ"))(values(m, (n, 3)))
        if kind == 1:
            return getattr(T, m.pick(list(UNITS)))()(m.pick([2.0, 3.5, 0.25]))
        if kind == 2:
            return T.Out(m.pick(["sizes", "screen[positions].x"]))
        return getattr(T, m.pick("XYZ"))()(values(m, (n, 3)))

    def build(depth):
        if not depth:
            return leaf()
        operator = m.pick([T.Add, T.Sub, T.Mul, T.Div])
        left = build(m.integer(0, depth - 1))
        right = m.pick([lambda: build(m.integer(0, depth - 1)), lambda: m.pick([2, 0.5, 3.0])])()
        if m.chance(0.3) and not isinstance(right, T.Transform):
            left, right = right, left
        return operator(left, right)

    def value(t):
        with np.errstate(all="ignore"):
            return np.array(t.evaluate(env), dtype=float)

    original = build(m.integer(1, 3))
    copy = original.copy()
    what = f"copy of {type(original).__name__}"
    m.check(copy is not original and type(copy) is type(original), f"{what}: not a copy")
    m.check(copy.base is original.base, f"{what}: base")
    m.check(not set(map(id, operands(copy))) & set(map(id, operands(original))), f"{what}: shares operands with it")
    want = value(original)
    m.check(np.array_equal(value(copy), want, equal_nan=True), f"{what}: value")
    for changed, kept in ((copy, original), (original, copy)):
        before = [state.describe(t) for t in operands(kept)]
        want = value(kept)
        for _ in range(m.integer(1, 3)):
            t = m.pick(operands(changed))
            if isinstance(t, T.Operator):
                getattr(t, m.pick(["set_left", "set_right"]))(m.pick([7, 0.125]))
            elif isinstance(t, T.Measure):
                t.set_buffer(m.pick([5.0, 9.0]))
            elif isinstance(t, T.Accessor):
                t.set_buffer(values(m, (n, 3)))
        m.check(state.same([state.describe(t) for t in operands(kept)], before),
                f"{what}: a change of the one shows in the parts of the other")
        m.check(np.array_equal(value(kept), want, equal_nan=True), f"{what}: a change of the one shows in the other")
    m.event("expression", type(original).__name__, len(operands(original)))
    m.seen("expression", type(original).__name__, len(operands(copy)))


def refusals(m):
    """What cannot be chained or bound is refused and leaves the transform alone."""
    s = stage(m, True)
    t = s.make()
    before = state.describe(t)
    for wrong in m.pick([["text", None], [{"a": 1}], [object()], [b"raw"]]):
        m.raises((ValueError, TypeError), lambda: t(wrong), f"binding {wrong!r}")
    m.check(state.same(state.describe(t), before), "a refused binding changed the transform")
    m.seen("refused", s.kind, str(wrong)[:6])


RANDOM = [(programs, 400, 12000), (expressions, 100, 3000), (refusals, 30, 200)]
