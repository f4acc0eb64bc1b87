"""C38 — the example recorder shows its own block and exactly the commands of it."""
import contextlib
import importlib.util
import io
import json
import os
import sys
import tempfile
import textwrap

from . import dumps, env
from .env import Object, gsp

ID = "C38"
RULE = ("random example scripts (statements, loops, conditions, comments, blank and blank-looking lines, nested in "
        "functions, followed by other code or by the end of the file) run from a file: the printed code is compared with "
        "the block that was written, the commands with those the block issues by construction, the printed dumps with "
        "the dumps of the queue; non-trivial = distinct (formats, position of the block, features of it) combinations")
MIN = 1500


def statements(m, depth=0):
    """Lines of code and the methods of the commands they issue, in order."""
    lines, methods, features = [], [], set()
    for k in range(m.integer(1, 4)):
        kind = m.pick(["canvas", "canvas", "viewport", "several", "pixels", "comment", "blank", "whitespace", "loop", "if",
                       "plain", "trailing", "unit"])
        if depth and kind in ("loop", "if"):
            kind = "canvas"
        features.add(kind)
        if kind == "canvas":
            lines.append(f"canvas = gsp.core.Canvas({m.integer(1, 900)}, {m.integer(1, 900)}, {round(m.real(50, 200), 2)})")
            methods.append("core.Canvas")
        elif kind == "viewport":
            lines += [f"canvas = gsp.core.Canvas({m.integer(1, 900)}, 20, 100.0)",
                      "viewport = gsp.core.Viewport(canvas, 0, 0,",
                      f"                             {m.integer(1, 9)}, 0.5, (0.0, 0.5, 1.0, 1.0))"]
            methods += ["core.Canvas", "core.Viewport"]
        elif kind == "several":
            lines.append("first = gsp.transform.Pixel(); second = gsp.transform.Inch()")
            methods += ["transform.Pixel", "transform.Inch"]
        elif kind == "unit":
            lines.append("unit = gsp.transform.Point()  # a unit")
            methods.append("transform.Point")
        elif kind == "pixels":
            n = m.integer(1, 4)
            lines += [f"data = gsp.core.Buffer({n}, np.dtype(np.float32))", "data.set_data(0, memoryview(bytes(4)))"]
            methods += ["core.Buffer", "Buffer/set_data"]
        elif kind == "comment":
            lines.append("# " + m.pick(["a comment", "with mkdocs():", "", "``` code"]))
        elif kind == "blank":
            lines.append("")
        elif kind == "whitespace":
            lines.append(" " * m.integer(1, 14))
        elif kind == "plain":
            lines.append(m.pick(["values = [1, 2]", "text = 'x' * 3", "pass", "name = \"a{b}%s\""]))
        elif kind == "trailing":
            lines.append("number = 1" + " " * m.integer(1, 4))
        else:
            inner, issued, more = statements(m, depth + 1)
            step = " " * m.pick([4, 4, 2, 3])
            inner = [step + line if line.strip() else line for line in inner + ["pass"]]
            times = m.integer(0, 3)
            lines += [f"for i in range({times}):" if kind == "loop" else f"if {times} > 1:"] + inner
            methods += issued * times if kind == "loop" else issued * (times > 1)
            features |= {kind + f for f in more}
    return lines, methods, features


def script(m):
    body, methods, features = statements(m)
    while m.chance(0.3) and len(body) < 400:
        # a long example
        times = m.integer(2, 40)
        body, methods = body * times, methods * times
        features.add("long")
    body = body + ["done = True"]
    title = m.pick([None, "Example", "A title", "Titre: 'x' %s"])
    formats = m.pick([None, ["ansi"], ["json"], ["ansi", "json"], ["json", "ansi"], []])
    given = []
    if title is not None:
        given.append(m.pick(["", "title="]) + repr(title))
    if formats is not None:
        given.append("formats=" + repr(formats))
    place = m.pick(["module", "function", "nested"])
    outer = {"module": [], "function": ["def run():"], "nested": ["def run():", "    if True:"]}[place]
    indent = " " * 4 * len(outer)
    step = " " * m.pick([4, 4, 4, 2, 8])
    head = f"with {m.pick(['gsp.io.mkdocs', 'mkdocs'])}({', '.join(given)}){m.pick(['', ' as example'])}:"
    block = [indent + step + line if line.strip() else line for line in body]
    after = m.pick(["code", "code", "blank", "end", "end without newline"])
    text = ["import numpy as np", "import gsp", "from gsp.io import mkdocs", "gsp.core.Canvas(5, 5, 50.0)"] + outer
    text += [indent + head] + block
    if after == "code":
        text += [""] * m.integer(0, 2) + [indent + "finished = True"]
        if place != "module":
            text += ["run()"]
    elif place != "module":
        text += [""] * m.integer(0, 2) + ["run()"]
        after = "other level"
    elif after == "blank":
        text += [""] * m.integer(1, 3)
    source = "\n".join(text) + ("" if after == "end without newline" else "\n")
    return (source, "\n".join(body), methods, "Example" if title is None else title,
            ["ansi", "json"] if formats is None else formats, (place, after), features)


def sections(m, text, label):
    """Title and {tab: content} of the markdown printed."""
    lines = text.split("\n")
    m.check(lines[0].startswith('??? example "') and lines[0].endswith('"'), f"{label}: title line {lines[0]!r}")
    tabs, current, inside = {}, None, False
    for line in lines[1:]:
        if not inside and line.startswith('    === "'):
            current = line.strip()[5:-1]
            m.check(current not in tabs, f"{label}: tab {current} twice")
            tabs[current] = []
        elif line.rstrip() == "        ```":
            m.check(inside, f"{label}: end of code outside of code")
            inside = False
        elif not inside and line.startswith("        ``` "):
            inside = True
            tabs[current].append(line.split()[1])
        elif inside:
            m.check(line.startswith("        "), f"{label}: line {line!r} is not in its tab")
            tabs[current].append(line[8:])
        else:
            m.check(not line.strip(), f"{label}: {line!r} outside of code")
    m.check(not inside, f"{label}: code is not ended")
    return lines[0][13:-1], tabs


def run(m, source):
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, f"example_{m.integer(0, 10**9)}.py")
        with open(path, "w", encoding="utf-8") as stream:
            stream.write(source)
        spec = importlib.util.spec_from_file_location("example", path)
        module = importlib.util.module_from_spec(spec)
        output = io.StringIO()
        with contextlib.redirect_stdout(output):
            spec.loader.exec_module(module)
    return output.getvalue()


def examples(m):
    env.advance(m)
    for _ in range(m.integer(0, 3)):
        gsp.core.Canvas(1, 2, 30.0)
    source, body, methods, title, formats, place, features = script(m)
    label = f"example at {place} with {sorted(features)}"
    text = run(m, source)
    name, tabs = sections(m, text, label)
    m.eq(name, title, f"{label}: title")
    m.eq(sorted(tabs), sorted(["PYTHON"] + [{"ansi": "TEXT", "json": "JSON"}[f] for f in formats]), f"{label}: tabs")
    # The block, without what is around it
    m.eq(tabs["PYTHON"][0], "python", f"{label}: language")
    tidy = lambda text: "\n".join(line.rstrip() for line in text.split("\n")).strip("\n")
    got = tidy("\n".join(tabs["PYTHON"][1:]))
    want = tidy(textwrap.dedent(body))
    m.check(got == want, f"{label}: code shown\n{got}\ninstead of\n{want}")
    # Its commands
    queue = gsp.io.queue("active")
    commands = list(queue)
    m.eq([dumps.method_of(c) for c in commands], methods, f"{label}: commands recorded")
    m.eq([c.id for c in commands], list(range(1, len(methods) + 1)), f"{label}: ids of the commands")
    created = [c.parameters["id"] for c in commands if "/" not in dumps.method_of(c)]
    m.eq(created, list(range(1, len(created) + 1)), f"{label}: ids of the objects")
    m.check(set(Object.objects) == set(created), f"{label}: registered objects {sorted(Object.objects)}")
    if "JSON" in tabs:
        m.eq(tabs["JSON"][0], "json", f"{label}: language")
        payload = json.loads("\n".join(tabs["JSON"][1:]))
        dumps.check_dump(m, payload, commands, label)
        m.eq(payload, json.loads(gsp.io.json.dump()), f"{label}: JSON dump shown")
    if "TEXT" in tabs:
        m.eq(tabs["TEXT"][0], "ansi", f"{label}: language")
        from gsp.io import ansi
        m.eq("\n".join(tabs["TEXT"][1:]).rstrip(), ansi.dump().rstrip(), f"{label}: text dump shown")
    m.event(label, len(commands), formats)
    m.seen(tuple(formats), place, tuple(sorted(features)))


def snippets(m):
    """The examples of the documentation: the code shown is the end of the file, the last command the file's name."""
    folder = os.path.join(os.path.dirname(gsp.__file__), "..", "docs", "snippets")
    for name in sorted(os.listdir(folder)):
        if not name.endswith(".py"):
            continue
        env.advance(m)
        for _ in range(m.integer(0, 3)):
            gsp.core.Canvas(1, 2, 30.0)
        path = os.path.join(folder, name)
        with open(path, encoding="utf-8") as stream:
            source = stream.read()
        label = f"snippet {name}"
        spec = importlib.util.spec_from_file_location("snippet", path)
        output = io.StringIO()
        with contextlib.redirect_stdout(output):
            spec.loader.exec_module(importlib.util.module_from_spec(spec))
        title, tabs = sections(m, output.getvalue(), label)
        m.eq(title, "Example", f"{label}: title")
        m.eq(sorted(tabs), ["JSON", "PYTHON", "TEXT"], f"{label}: tabs")
        tidy = lambda text: "\n".join(line.rstrip() for line in text.split("\n")).strip("\n")
        m.eq(tidy("\n".join(tabs["PYTHON"][1:])), tidy(textwrap.dedent(source.split("with mkdocs():\n")[1])),
             f"{label}: code shown")
        queue = gsp.io.queue("active")
        commands = list(queue)
        m.eq([c.id for c in commands], list(range(1, len(commands) + 1)), f"{label}: ids of the commands")
        classname, method = name[:-3].rsplit("_", 1) if not name.endswith(("_colormap.py", "_data.py")) else name[:-3].split("_", 1)
        last = dumps.method_of(commands[-1])
        m.check(last.split(".")[-1] == classname if method == "init" else last == f"{classname}/{method}",
                f"{label}: last command is {last}")
        # An array given where a buffer is expected adds the commands creating it
        payload = json.loads("\n".join(tabs["JSON"][1:]))
        shown = [c["method"] for c in payload["commands"]]
        for method in map(dumps.method_of, commands):
            m.check(method in shown, f"{label}: {method} not shown in {shown}")
            shown = shown[shown.index(method) + 1:]
        m.seen("snippet", name)


def failing(m):
    """An error in the block comes through."""
    gsp.core.Canvas(1, 2, 30.0)

    def block():
        with gsp.io.mkdocs("failing"):
            gsp.core.Canvas(3, 4, 50.0)
            raise KeyError("inside")
    output = io.StringIO()
    with contextlib.redirect_stdout(output):
        m.raises(KeyError, block, "error in an example")
    m.eq([c.parameters["width"] for c in gsp.io.queue("active")], [3], "commands of a failing example")
    m.seen("failing")


QUICK = 20
RANDOM = [(examples, 150, 4000), (failing, 5, 20), (snippets, 1, 3)]
