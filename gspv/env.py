"""The system under test and the state every case starts from."""
import contextlib
import itertools
import sys

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.axes import Axes
from matplotlib.figure import Figure

import gsp
import gsp.io
import gsp.core
import gsp.visual
import gsp.transform
import gsp_matplotlib as backend
from gsp.object import Object
from gsp_matplotlib import glm

TRACKER = glm.ndarray.tracked.__tracker_class__
_number = itertools.count()


def new_queue(prefix="case"):
    """A new queue under a name never used before (it becomes the active one)."""
    return gsp.io.queue(f"{prefix}-{next(_number)}")


def fresh():
    """Recording on, a new empty active queue, an empty object registry."""
    gsp.io.record(True)
    Object.objects = {}
    Object.record = True
    glm.ndarray.tracked.__tracker_class__ = TRACKER
    plt.close("all")
    return new_queue()


def advance(m):
    """Objects and commands do not start at small numbers."""
    for counter in (sys.modules["gsp.io.command"].CID, gsp.object.OID):
        if m.chance(0.4):
            for _ in range(m.pick([7, 90, 990, 1001, 9990, m.integer(0, 3000)])):
                counter()


def held(thing, kind):
    """What an object of the backend holds of a kind, whatever the attribute is called."""
    for value in vars(thing).values():
        if isinstance(value, kind):
            return value
    raise AttributeError(f"{type(thing).__name__} holds no {kind.__name__}")


def figure(canvas):
    return held(canvas, Figure)


def axes(viewport):
    return held(viewport, Axes)


def tracker(array):
    """The tracker a tracked array writes to, if it has one."""
    for value in vars(array).values():
        if hasattr(value, "set_data") and not isinstance(value, np.ndarray):
            return value
    return None


def clean():
    plt.close("all")
    gsp.io.record(True)
    glm.ndarray.tracked.__tracker_class__ = TRACKER
    Object.objects = {}
    gsp.io.queue("active").empty()


@contextlib.contextmanager
def quiet():
    """What the harness itself does with GSP objects is not recorded."""
    recording = getattr(sys.modules["gsp.io.command"], "__record__", True)
    gsp.io.record(False)
    try:
        yield
    finally:
        gsp.io.record(recording)
