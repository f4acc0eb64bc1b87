"""C13 — transform arithmetic is element-wise arithmetic."""
import operator

import numpy as np

from . import state
from .env import backend, gsp
from .trans import T, Unclear, accessor, holder, lookup, measure, values, variables

ID = "C13"
RULE = ("random pools of expressions grown by + - * / and negation (either operand order, numbers, arrays and buffers "
        "as operands, shared operands, copies, changed operands) over accessors, outputs, measures and colormaps; every "
        "expression is compared with numpy after each step and again at the end together with the state of its "
        "operands; non-trivial = distinct (operator, operand kinds, shape) combinations evaluated")
MIN = 3000

OPS = {"+": (operator.add, "Add"), "-": (operator.sub, "Sub"), "*": (operator.mul, "Mul"), "/": (operator.truediv, "Div")}


EPS = 3e-7


def spread(sign, a, b, r):
    """Bound of the rounding errors of a result, given (value, bound) of the operands."""
    (a, ea), (b, eb) = [(np.abs(np.asarray(x, float)), e) for x, e in (a, b)]
    r = np.abs(np.asarray(r, float))
    e = ea + eb if sign in "+-" else a * eb + b * ea if sign == "*" else (ea + r * eb) / b
    return e + EPS * r


class Node:
    def __init__(self, transform, value, kind, error=None):
        self.t, self.value, self.kind = transform, np.asarray(value), kind
        self.error = EPS * np.abs(self.value.astype(float)) if error is None else error
        self.parts = None       # (value, bound) of the operands of an operator
        self.state = state.describe(transform)


def leaf(m, n, family, env):
    screen = env["screen[positions]"]
    kind = m.pick(["accessor", "out", "measure"])
    if family == "vector":
        if kind == "out":
            return Node(T.Out("sizes"), env["sizes"], "out")
        if kind == "measure":
            t, v, what = measure(m, env["dpi"], False)
            return Node(t, v, "measure")
        t, v, what = accessor(m, n)
        return Node(t, v, "accessor")
    if family == "column":
        if kind == "measure":
            t, v, what = measure(m, env["dpi"], False)
            return Node(t, v, "measure")
        if m.chance(0.3):
            i = m.integer(0, 3)
            return Node(T.Out("fill_colors." + "rgba"[i]), env["fill_colors"][:, i:i + 1], "out")
        i = m.integer(0, 2)
        return Node(T.Out("screen[positions]." + "xyz"[i]), screen[:, i:i + 1], "out")
    if family == "rows":
        if kind == "measure":
            t, v, what = measure(m, env["dpi"], True)
            return Node(t, v, "measure")
        if kind == "accessor":
            array = np.zeros(n, [("a", np.float32, 3), ("b", np.float64, 3)])
            array["a"], array["b"] = m.rng.uniform(0.2, 2, (2, n, 3))
            key = m.pick("ab")
            held, _ = holder(m, array)
            return Node(T.Accessor(key=key)(held), array[key].copy(), "accessor")
        return Node(*m.pick([(T.Out("screen[positions]"), screen, "out"),
                             (T.Out("screen[positions].zxy"), screen[:, [2, 0, 1]], "out")]))
    # colours
    if kind == "out":
        return Node(T.Out("fill_colors"), env["fill_colors"], "out")
    name = m.pick(["magma", "viridis", "gray"])
    bounds = m.pick([(None, None), (0.0, 1.0), (-1.0, 2.0)])
    for _ in range(20):
        t, v, what = accessor(m, n)
        try:
            return Node(T.Colormap(name, *bounds)(t), lookup(name, v, *bounds), "colormap")
        except Unclear:
            pass
    return Node(T.Out("fill_colors"), env["fill_colors"], "out")


def pair(x):
    return (x.value, x.error) if isinstance(x, Node) else (x, EPS * np.abs(np.asarray(x, float)))


def combine(sign, transform, left, right):
    """The node of an expression, its operands being nodes, plain values or pairs."""
    left, right = [x if isinstance(x, tuple) else pair(x) for x in (left, right)]
    value = OPS[sign][0](left[0], right[0])
    node = Node(transform, value, "operator", spread(sign, left, right, value))
    node.parts = left, right
    return node


def operand(value):
    return value if isinstance(value, (int, float)) else np.asarray(value)


def clear(node):
    """Whether the value can be told from its rounding errors."""
    with np.errstate(all="ignore"):
        size = np.abs(node.value.astype(float))
        small = node.error <= 2e-6 * max(1.0, size[np.isfinite(size)].max(initial=0))
        # an exact division by zero
        return bool((small | ~np.isfinite(size) & ~(node.error > 0)).all())


def evaluate(m, node, env, what):
    got = node.t.evaluate(env)
    m.close(got, node.value, what, 1e-5)


def expressions(m):
    n = m.integer(1, 7)
    env = variables(m, n)
    family = m.pick(["vector", "vector", "column", "rows", "colors"])
    shape = {"vector": (n,), "column": (n, 1), "rows": (n, 3), "colors": (n, 4)}[family]
    pool = [leaf(m, n, family, env) for _ in range(m.integer(2, 4))]
    for node in pool:
        evaluate(m, node, env, f"operand ({node.kind})")
    for _ in range(m.integer(2, 8)):
        sign = m.pick("+-*/")
        function, name = OPS[sign]
        a = m.pick(pool)
        form = m.pick(["number right", "number left", "array", "array in constructor", "buffer in constructor",
                       "two", "two", "two", "constructor", "negation", "copy", "change", "itself"])
        with np.errstate(all="ignore"):
            if form in ("number right", "number left"):
                k = m.pick([m.integer(0, 5), m.real(-3, 3), 0.0, 1, -1.0, np.float64(m.real(0.5, 2))])
                if isinstance(a.t, T.Measure) and sign == "*":
                    continue                # binds the measure (C14)
                if form == "number right":
                    new = combine(sign, function(a.t, k), a, k)
                else:
                    if isinstance(k, np.floating) and not isinstance(a.t, T.Measure):
                        k = float(k)
                    new = combine(sign, function(k, a.t), k, a)
            elif form == "array":
                array = values(m, shape)
                if isinstance(a.t, T.Measure) and sign == "*":
                    continue
                new = combine(sign, function(a.t, array), a, array)
            elif form in ("array in constructor", "buffer in constructor"):
                array = np.ascontiguousarray(values(m, shape))
                held = array
                if form.startswith("buffer"):
                    sub = array.dtype if array.ndim == 1 else np.dtype((array.dtype, array.shape[1:]))
                    held = backend.core.Buffer(len(array), sub, array.tobytes())
                if m.chance():
                    new = combine(sign, getattr(T, name)(held, a.t), array, a)
                else:
                    new = combine(sign, getattr(T, name)(a.t, held), a, array)
            elif form in ("two", "constructor", "itself"):
                b = a if form == "itself" else m.pick(pool)
                made = getattr(T, name)(a.t, b.t) if form == "constructor" else function(a.t, b.t)
                new = combine(sign, made, a, b)
            elif form == "negation":
                new = combine("*", -a.t, a, -1.0)
            elif form == "copy":
                new = Node(a.t.copy(), a.value, a.kind, a.error)
                new.parts = a.parts
                m.eq(type(new.t), type(a.t), "type of a copy")
            else:
                # an operand replaced in a copy: neither the original nor the operand is affected
                if not isinstance(a.t, T.Operator):
                    continue
                b = m.pick(pool)
                other = a.t.copy()
                # (a sum may hold its operands in either order)
                worst = max(float(np.max(error)) for _, error in a.parts)
                left, right = [x.evaluate(env) if isinstance(x, T.Transform) else operand(x)
                               for x in (a.t.left, a.t.right)]
                left, right = [(x, np.full(np.shape(x), worst)) for x in (left, right)]
                if m.chance():
                    other.set_left(b.t)
                    new = combine(a.t.operator, other, b, right)
                else:
                    other.set_right(b.t)
                    new = combine(a.t.operator, other, left, b)
            if isinstance(new.t, T.Operator) and form not in ("copy", "change"):
                m.eq(new.t.operator, "*" if form == "negation" else sign, "operator of an expression")
        if not clear(new):
            continue            # rounding decides the value
        if new.value.dtype.kind in "iu" and np.abs(new.value.astype(np.int64)).max() > 30000:
            continue            # near the limits of integer types
        m.event(form, sign, family, a.kind, new.value.shape)
        evaluate(m, new, env, f"{form} {sign} of {a.kind}")
        evaluate(m, a, env, "operand afterwards")
        pool.append(new)
        m.seen(form, sign, family, a.kind, n > 1)
    for node in pool:
        evaluate(m, node, env, f"{node.kind} at the end")
        m.check(state.same(state.describe(node.t), node.state), f"an operand changed: {node.state}")
    # with other variables, everything follows
    other = variables(m, n)
    for node in pool[:2]:
        node.t.evaluate(other)
        evaluate(m, node, env, "after an evaluation with other variables")


def aliasing(m):
    """Arrays handed in are neither modified nor is what came out of an evaluation changed by the next one."""
    n = m.integer(2, 6)
    array = values(m, (n, 3))
    before = array.copy()
    x, y = T.X()(array), T.Y()(array)
    k = m.real(0.5, 3)
    e = m.pick([lambda: x + y * k, lambda: (x - y) / k, lambda: k / x - -y, lambda: (x * k) * (x * k)])()
    first = np.array(e.evaluate(None), copy=True)
    result = e.evaluate(None)
    m.close(result, first, "second evaluation")
    result += 100
    m.close(e.evaluate(None), first, "evaluation after the result was modified")
    m.eq(array, before, "operand array")
    array[...] = values(m, (n, 3)).astype(array.dtype)
    a, b = array[:, 0].astype(float), array[:, 1].astype(float)
    x2, y2 = x.evaluate(None), y.evaluate(None)
    m.close(x2, a, "accessor of a modified array")
    m.close(y2, b, "accessor of a modified array")
    m.seen("alias", str(array.dtype), n)


def detached(m):
    """Later changes to a transform do not show in the expressions it was used in."""
    n = m.integer(1, 6)
    env = variables(m, n)
    array, other = values(m, (n, 3)), values(m, (n, 3))
    kind = m.pick(["colormap", "accessor", "operator", "next"])
    if kind == "colormap":
        t = T.Colormap("gray", 0.0, 1.0)(m.rng.uniform(0, 1, n))
    elif kind == "accessor":
        t = T.Y()(array)
    elif kind == "operator":
        t = T.X()(array) - m.real(1, 3)
    else:
        t = T.Colormap("gray", -3.0, 60.0)(T.X()(array))
    made = []
    for _ in range(m.integer(1, 4)):
        sign = m.pick("+-*/")
        function, name = OPS[sign]
        k = m.real(0.5, 3)
        form = m.pick(["left", "right", "both", "constructor"])
        e = {"left": lambda: function(t, k), "right": lambda: function(k, t), "both": lambda: function(t, t),
             "constructor": lambda: getattr(T, name)(t, k) if m.chance() else getattr(T, name)(left=k, right=t)}[form]()
        if m.chance(0.3):
            e = -e
        made.append((e, np.array(e.evaluate(env), copy=True), form, sign))
    if kind == "colormap":
        t.set_colormap("viridis")
    elif kind == "accessor":
        t.set_buffer(other)
    elif kind == "operator":
        m.pick([lambda: t.set_operator("+"), lambda: t.set_left(7.0), lambda: t.set_right(T.Z()(other))])()
    else:
        t.set_next(T.X()(other))
    for e, value, form, sign in made:
        m.close(e.evaluate(env), value, f"{form} {sign} after the {kind} it was made of changed", 1e-6)
    # nor the other way round
    t = T.X()(array)
    e = t + 1
    e.left.set_buffer(other)
    m.close(t.evaluate(env), array[:, 0], "operand after the expression changed", 1e-6)
    m.seen("detached", kind, tuple(f + s for _, _, f, s in made))


def unbound(m):
    """An operand bound after the expression was made does not bind the expression, nor does the other way round."""
    n = m.integer(1, 6)
    env = variables(m, n)
    array, other = values(m, (n, 3)), values(m, (n, 3))
    kind = m.pick(["accessor", "colormap", "measure", "chain", "operator"])
    t = {"accessor": T.X, "colormap": lambda: T.Colormap("gray", 0.0, 1.0), "measure": T.Inch,
         "chain": lambda: T.Y()(T.X()), "operator": lambda: T.X() - 1.5}[kind]()
    made = []
    for _ in range(m.integer(1, 4)):
        function, name = OPS[m.pick("+-/")]
        k = m.pick([m.real(0.5, 3), 2, T.Y()(array)])
        form = m.pick(["left", "right", "both", "negation", "copy", "constructor"])
        e = {"left": lambda: function(t, k), "right": lambda: function(k, t), "both": lambda: function(t, t),
             "negation": lambda: -t, "copy": lambda: t.copy(),
             "constructor": lambda: getattr(T, name)(t, k) if m.chance() else getattr(T, name)(left=k, right=t)}[form]()
        m.check(not e.bound, f"{form} of an unbound {kind} is bound")
        made.append((e, form, state.describe(e)))
    target = t.left if kind == "operator" else t
    held = holder(m, other)[0]
    change = m.pick(["buffer", "next", "other"])
    if change == "buffer":
        target.last.set_buffer(held)
    elif change == "next":
        target.last.set_next(T.Z()(held))
    elif kind == "operator":
        m.pick([lambda: t.set_left(2.0), lambda: t.set_operator("/"), lambda: t.set_right(T.X()(held))])()
    else:
        target.last.set_base(T.Pixel())
    m.event(kind, change, [form for _, form, _ in made])
    if change != "other":
        m.check(t.bound, f"{kind} bound by its {change}")
    for e, form, before in made:
        m.check(not e.bound, f"{form} became bound with the {kind} it was made of ({change})")
        m.check(state.same(state.describe(e), before), f"{form} changed with the {kind} it was made of ({change})")
    m.seen("unbound", kind, change, tuple(form for _, form, _ in made))


def bindings(m):
    """An expression is bound when every transform in it is."""
    n = m.integer(1, 5)
    pool = []
    for _ in range(m.integer(2, 9)):
        form = m.pick(["leaf", "leaf", "number", "array", "two", "two", "negation", "copy", "chain"]) if pool else "leaf"
        a, bound = m.pick(pool) if pool else (None, None)
        number = m.pick([0, 2.5, -1])
        if form == "leaf":
            held = holder(m, values(m, (n, 3)))[0]
            new, bound = m.pick([lambda: (T.X()(held), True), lambda: (T.X(), False), lambda: (T.Pixel(), False),
                                 lambda: (T.Inch()(2.0), True), lambda: (T.Colormap("gray")(0.5), True),
                                 lambda: (T.Colormap("gray")(T.Y()), False), lambda: (T.Out("sizes"), False)])()
        elif form == "number":
            new = m.pick([lambda: a + number, lambda: number - a, lambda: a / number, lambda: T.Mul(number, a)])()
        elif form == "array":
            array = values(m, (n, 3))
            held = m.pick([array, backend.core.Buffer(n, np.dtype((array.dtype, 3)), array.tobytes())])
            new = m.pick([lambda: T.Add(a, held), lambda: T.Sub(held, a)])()
        elif form == "two":
            b, other = m.pick(pool)
            new, bound = m.pick([lambda: a + b, lambda: b - a, lambda: T.Div(a, b)])(), bound and other
        elif form == "negation":
            new = -a
        elif form == "copy":
            new = a.copy()
        else:
            new = m.pick([T.X, T.Millimeter, lambda: T.Colormap("magma")])()(a)
        pool.append((new, bound))
        m.event(form, bound)
        for t, want in pool:
            m.eq(bool(t.bound), want, f"bound, after {form}: {type(t).__name__}")
        if bound and not isinstance(new, T.Out):
            m.raises(ValueError, lambda: new(m.pick([3, 2.5, values(m, n)])), f"binding a bound {form}")
            m.check(new.bound, "bound after a refused binding")
        m.seen("bound", form, type(new).__name__, bound)
    m.eq(bool(T.Add(1, 2.5).bound), True, "a sum of numbers is bound")


RANDOM = [(bindings, 60, 800), (unbound, 60, 1000), (expressions, 400, 12000), (aliasing, 60, 600), (detached, 100, 2000)]
