"""C10 — a recorded scene replays to the same picture."""
import os
import tempfile

import numpy as np

from . import draw, env
from .env import Object, backend, gsp
from .scene import Scene

ID = "C10"
RULE = ("random scenes (canvases, viewports, all visuals; plain, buffer, tracked and transform attributes; all matrix "
        "kinds; renders interleaved with in-place updates) recorded with the protocol classes, saved, loaded and run, "
        "against the same scene built directly: the logs of drawn paths must agree shape by shape, in order, and for "
        "part of them the pixels; non-trivial = distinct sets of features drawn")
MIN = 300


def twin(m, steps, **options):
    """The recorded and the directly built form of one scene."""
    bits = m.rng.bit_generator.state
    recorded = Scene(m, "gsp", **options).play(steps)
    queue = gsp.io.queue("active")
    after = m.rng.bit_generator.state
    m.rng.bit_generator.state = bits
    with env.quiet():
        direct = Scene(m, "backend", **options).play(steps)
    m.rng.bit_generator.state = after
    pictures = [draw.record(f) for f in draw.figures()]
    rasters = [draw.raster(f) for f in draw.figures()]
    env.plt.close("all")
    return queue, recorded, direct, pictures, rasters


def compare(m, pictures, rasters, what, pixels):
    figures = draw.figures()
    m.eq(len(figures), len(pictures), f"{what}: number of canvases")
    for i, (figure, want) in enumerate(zip(figures, pictures)):
        got = draw.record(figure)
        trouble = draw.difference(got, want, 1e-5)
        m.check(trouble is None, f"{what}: canvas {i}: {trouble}")
        m.count("shapes")
        if pixels:
            image = draw.raster(figure)
            m.check(image.shape == rasters[i].shape and
                    np.abs(image.astype(int) - rasters[i]).max() <= 2, f"{what}: canvas {i}: pixels differ")


def scenes(m, **options):
    queue, recorded, direct, pictures, rasters = twin(m, m.integer(2, 9), **options)
    features = tuple(sorted(recorded.features))
    m.event([c.methodname for c in queue], features)
    m.event("drawn", [len(p) for p in pictures])
    pixels = m.chance(0.3)
    form = m.pick(["saved", "saved", "saved into queue", "direct", "twice"])
    if form == "direct" and "update" in features:
        form = "saved"      # run directly, the commands refer to the live arrays, not to the recorded values
    if form == "direct":
        if m.chance():
            Object.objects = {}
        queue.run(backend)
    else:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "scene.json")
            gsp.save(path) if m.chance() else gsp.io.json.save(path, queue)
            if form == "saved into queue":
                Object.objects = {}
                loaded = env.new_queue()
                gsp.io.json.load(path, loaded)
            else:
                loaded = gsp.load(path)
        loaded.run(backend)
        if form == "twice":
            env.plt.close("all")
            loaded.run(backend)
    compare(m, pictures, rasters, f"{form} scene with {features}", pixels)
    if any(p for p in pictures):
        m.seen(form, features)


def plain_scenes(m):
    scenes(m, transforms=False, tracked=False)


def one_visual(m):
    scenes(m, kinds=[m.pick(Scene.KINDS)])


RANDOM = [(scenes, 40, 700), (plain_scenes, 25, 400), (one_visual, 40, 700)]
