"""C40 — the interactive camera shows the scene as the mouse moved it."""
import importlib.util
import os

import numpy as np
from matplotlib.backend_bases import MouseEvent, ResizeEvent

from .c26 import orientation, rotation, sphere, turn, R
from . import env
from .env import backend, glm, gsp

ID = "C40"
RULE = ("random histories of presses, motions, releases and scrolls, inside and outside of the viewport, sent through "
        "matplotlib's event dispatch to cameras of both modes connected for any of the events and disconnected again: "
        "the matrices, limits and calls of the update functions after every event against rotations composed in double "
        "precision; non-trivial = distinct (mode, event, inside, button pressed) combinations")
MIN = 20000


def load():
    path = os.path.join(os.path.dirname(gsp.__file__), "..", "examples", "common", "camera.py")
    spec = importlib.util.spec_from_file_location("gspv_example_camera", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module.Camera


class Stage:
    """A canvas with the camera's viewport and possibly another one next to it."""

    def __init__(self, m):
        self.W, self.H = m.integer(60, 160), m.integer(60, 160)
        self.canvas = backend.core.Canvas(self.W, self.H, m.pick([72.0, 100.0]))
        if m.chance(0.3):
            self.box = 0, 0, self.W, self.H
        else:
            w, h = m.integer(25, self.W // 2), m.integer(25, self.H // 2)
            if m.chance(0.4):
                w = h = min(w, h)
            self.box = m.integer(0, self.W - w), m.integer(0, self.H - h), w, h
        self.viewport = backend.core.Viewport(self.canvas, *self.box, gsp.core.Color(1.0, 1.0, 1.0, 1.0))
        self.limits = np.array([env.axes(self.viewport).get_xlim(), env.axes(self.viewport).get_ylim()])
        self.mpl = env.axes(self.viewport).get_figure().canvas

    def inside(self, m):
        x, y, w, h = self.box
        margin = 2
        return x + m.real(margin, w - margin), y + m.real(margin, h - margin)

    def outside(self, m):
        x, y, w, h = self.box
        for _ in range(40):
            px, py = m.real(1, self.W - 1), m.real(1, self.H - 1)
            if px < x - 2 or px > x + w + 2 or py < y - 2 or py > y + h + 2:
                return px, py
        return None

    def resize(self, m):
        """The window grows; the viewport, in pixels, stays."""
        self.W, self.H = self.W + m.integer(0, 40), self.H + m.integer(0, 40)
        dpi = self.canvas._dpi
        self.mpl.figure.set_size_inches(self.W / dpi, self.H / dpi)
        self.mpl.callbacks.process("resize_event", ResizeEvent("resize_event", self.mpl))

    def send(self, name, x, y, **given):
        MouseEvent(name, self.mpl, x, y, **given)._process()


def where(stage, zoom, px, py):
    """Data coordinates of a pixel."""
    x, y, w, h = stage.box
    aspect = stage.limits[1, 1] / stage.limits[0, 1]
    return -zoom + 2 * zoom * (px - x) / w, (-zoom + 2 * zoom * (py - y) / h) * aspect


def histories(m):
    Camera = load()
    stage = Stage(m)
    mode = m.pick(["perspective", "perspective", "ortho"])
    zoom = m.pick([1.0, 1.0, m.real(0.15, 4)])
    zdist, scale = m.pick([(5.0, 1), (m.real(2, 9), m.real(0.5, 2))])
    theta, phi = (m.pick([0, m.real(-80, 80)]) for _ in range(2))
    camera = Camera(mode, theta, phi, zoom, zdist, scale)
    want = np.eye(3) if mode == "ortho" else orientation(theta, phi).T
    view = np.eye(4)
    if mode != "ortho":
        view = np.diag([scale, scale, scale, 1.0])
        view[2, 3] = -zdist
    events = sorted({m.pick(["motion", "scroll", "press", "release"]) for _ in range(m.integer(1, 4))})
    calls = []

    def function(event, number):
        def update(*given):
            calls.append(((event, number), given))
        return update
    everyone = {}
    for event in events:
        functions = [function(event, i) for i in range(m.integer(1, 2))]
        for f in functions:
            camera.connect(stage.viewport, event, f)
            if m.chance(0.2):       # once more
                camera.connect(stage.viewport, event, f)
        everyone[event] = [(event, i) for i in range(len(functions))]
    asked = m.pick(events)
    camera.update(asked)
    drift = 1
    pressed, last = False, None
    connected = True

    def audit(what, expected):
        M = rotation(m, camera.model, what)
        m.close(M, want, f"{what}: model", 2e-5 * drift)
        m.close(camera.view, view, f"{what}: view", 1e-5)
        if mode == "ortho":
            proj = glm.ortho(-1, 1, -1, 1, 1, 100)
        else:
            proj = glm.perspective(35, 1, 1, 100)
        m.close(camera.proj, proj, f"{what}: projection", 1e-6)
        m.close(camera.zoom, zoom, f"{what}: zoom", 1e-9)
        aspect = stage.limits[1, 1] / stage.limits[0, 1]
        m.close([env.axes(stage.viewport).get_xlim(), env.axes(stage.viewport).get_ylim()],
                [[-zoom, zoom], [-zoom * aspect, zoom * aspect]], f"{what}: limits", 1e-6)
        m.eq(sorted(number for number, _ in calls), sorted(expected), f"{what}: functions called")
        for _, (viewport, model, viewing, projection) in calls:
            m.check(viewport is stage.viewport, f"{what}: viewport handed to the function")
            m.check(np.array_equal(model, camera.model) and np.array_equal(viewing, camera.view)
                    and np.array_equal(projection, camera.proj), f"{what}: matrices handed to the function")
        calls.clear()

    audit(f"update({asked})", everyone[asked])
    for _ in range(m.integer(2, 25)):
        if stage.box[2] == stage.box[3] and m.chance(0.15):
            stage.resize(m)
            audit(f"{mode} camera after a resize", [])
            m.seen(mode, "resize", round(zoom, 1))
        kind = m.pick(["press", "motion", "motion", "motion", "release", "scroll", "scroll"])
        place = stage.inside(m)
        within = True
        if m.chance(0.2):
            place, within = stage.outside(m), False
            if place is None:
                continue
        px, py = place
        called = False
        if kind == "press":
            stage.send("button_press_event", px, py, button=m.pick([1, 2, 3]))
            if within and connected:
                pressed, last, called = True, where(stage, zoom, px, py), True
        elif kind == "release":
            stage.send("button_release_event", px, py, button=1)
            if connected:
                pressed, called = False, True
        elif kind == "scroll":
            step = m.pick([1, -1])
            stage.send("scroll_event", px, py, step=step)
            if within and connected:
                zoom, called = (max(0.9 * zoom, 0.1) if step > 0 else min(1.1 * zoom, 5.0)), True
        else:
            stage.send("motion_notify_event", px, py)
            if within and connected and pressed and mode != "ortho":
                new = where(stage, zoom, px, py)
                called = True
                # The trackball is dragged from the new place by the motion
                dx, dy = new[0] - last[0], new[1] - last[1]
                a, b = sphere(*new), sphere(new[0] + dx, new[1] + dy)
                axis = np.cross(b, a)
                if np.linalg.norm(axis) > 1e-12:
                    half = min(1, np.linalg.norm(b - a) / (2 * R))
                    want = (want.T @ turn(axis, np.degrees(2 * np.arcsin(half)))).T
                    drift += 1
                last = new
        m.event(kind, "inside" if within else "outside", "pressed" if pressed else "")
        audit(f"{mode} camera after {kind} at {px:.2f}, {py:.2f}", everyone.get(kind, []) if called else [])
        m.seen(mode, len(events), kind in events, kind, within, pressed, connected)
        if m.chance(0.04) and connected:
            camera.disconnect()
            connected = False


RANDOM = [(histories, 250, 8000)]
