"""C27 — geometry helpers produce valid meshes and fits."""
import os
import tempfile

import numpy as np

from gsp_matplotlib.glm import shapes

from .env import glm

ID = "C27"
RULE = ("spheres of random radius and subdivision and the regular solids checked as meshes (positions, indices, edges shared "
        "by two faces, equal lengths); random vertex sets, vectors, triangles, bounds and generated mesh files for the "
        "helpers, recomputed directly; non-trivial = distinct (helper, input form, size class) combinations")
MIN = 3000
QUICK = 20


def sphere(m):
    radius = m.pick([1.0, m.real(0.01, 50), 2])
    slices, stacks = m.integer(3, 24), m.integer(2, 24)
    if m.chance(0.1):
        slices, stacks = m.pick([(64, 64), (100, 3), (4, 130), (33, 70)])
    if m.chance(0.1):
        slices, stacks, radius = 32, 32, 1.0
        V, I = glm.sphere()
    else:
        V, I = glm.sphere(radius, slices, stacks)
    label = f"sphere({radius}, {slices}, {stacks})"
    V, I = np.asarray(V, float), np.asarray(I)
    m.eq(V.shape[1:], (3,), f"{label}: vertices")
    m.close(np.linalg.norm(V, axis=1) / radius, np.ones(len(V)), f"{label}: radius", 1e-6)
    m.eq(I.shape, (2 * slices * stacks, 3), f"{label}: triangles")
    m.check(I.min() >= 0 and I.max() < len(V), f"{label}: indices from {I.min()} to {I.max()} of {len(V)}")
    # Vertices at the same place are one vertex of the surface
    keys = np.round(V / radius, 6) + 0.0
    _, merged = np.unique(keys, axis=0, return_inverse=True)
    merged = merged.ravel()
    m.eq(merged.max() + 1, slices * (stacks - 1) + 2, f"{label}: distinct places")
    T = merged[I]
    T = T[(T[:, 0] != T[:, 1]) & (T[:, 1] != T[:, 2]) & (T[:, 0] != T[:, 2])]
    m.eq(len(T), 2 * slices * (stacks - 1), f"{label}: triangles with an area")
    E = np.concatenate([T[:, [0, 1]], T[:, [1, 2]], T[:, [2, 0]]])
    directed, n = np.unique(E, axis=0, return_counts=True)
    m.check((n == 1).all(), f"{label}: an edge is used twice in the same direction")
    opposite = {(a, b) for a, b in directed.tolist()}
    m.check(all((b, a) in opposite for a, b in opposite), f"{label}: the surface has a border")
    area = np.linalg.norm(np.cross(V[I[:, 1]] - V[I[:, 0]], V[I[:, 2]] - V[I[:, 0]]), axis=1).sum() / 2
    m.check(0.3 * 4 * np.pi * radius ** 2 < area < 4 * np.pi * radius ** 2, f"{label}: area {area}")
    volume = np.einsum("ij,ij->i", V[I[:, 0]], np.cross(V[I[:, 1]], V[I[:, 2]])).sum() / 6
    m.check(0.2 < abs(volume) / (4 / 3 * np.pi * radius ** 3) < 1, f"{label}: volume {volume}")
    m.event(label)
    m.seen("sphere", slices, stacks > 8)


def solids(m):
    """Faces, edges, vertices, faces as vertex loops."""
    documented = {"cube": (6, 12, 8), "tetrahedron": (4, 6, 4), "octahedron": (8, 12, 6), "dodecahedron": (12, 30, 20),
                  "icosahedron": (20, 30, 12)}
    for name, (faces, edges, verts) in documented.items():
        V, F = getattr(shapes, name)()
        V, F = np.asarray(V, float), np.asarray(F)
        m.eq(V.shape, (verts, 3), f"{name}: vertices")
        m.check(F.dtype.kind in "iu" and F.min() >= 0 and F.max() < verts, f"{name}: indices")
        m.eq(len(np.unique(F)), verts, f"{name}: vertices used")
        m.eq(len(np.unique(np.round(V, 5), axis=0)), verts, f"{name}: distinct vertices")
        m.eq(len({tuple(sorted(f)) for f in F.tolist()}), len(F), f"{name}: distinct faces")
        # Planes the faces lie in
        planes = set()
        outward = 0
        for f in F:
            normal = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
            m.check(np.linalg.norm(normal) > 1e-4, f"{name}: face {f} has no area")
            normal /= np.linalg.norm(normal)
            offset = normal @ V[f[0]]
            m.close([normal @ V[k] for k in f], [offset] * len(f), f"{name}: face {f} is flat", 1e-5)
            m.check((V @ normal <= offset + 1e-5).all() or (V @ normal >= offset - 1e-5).all(),
                    f"{name}: face {f} is inside the solid")
            planes.add(tuple(np.round((normal if offset > 0 else -normal), 4) + 0.0))
        m.eq(len(planes), faces, f"{name}: faces")
        # Edges: shared by two faces that are not in the same plane
        count = {}
        for f in F.tolist():
            for a, b in zip(f, f[1:] + f[:1]):
                count[min(a, b), max(a, b)] = count.get((min(a, b), max(a, b)), 0) + 1
        m.check(set(count.values()) == {2}, f"{name}: an edge is not shared by two faces")
        lengths = np.array([np.linalg.norm(V[a] - V[b]) for a, b in count])
        if name == "dodecahedron":      # pentagons are cut into triangles
            outline = lengths < lengths.min() * 1.2
            m.eq(int(outline.sum()), edges, f"{name}: edges")
            lengths = lengths[outline]
        else:
            m.eq(len(count), edges, f"{name}: edges")
        if name != "tetrahedron":
            m.close(lengths / lengths[0], np.ones(len(lengths)), f"{name}: lengths of the edges", 1e-4)
        m.seen(name)
    V, F = glm.cube()
    m.close(np.asarray(V, float), shapes.cube()[0], "cube")
    V[...] = 7
    m.check((np.asarray(glm.cube()[0]) < 1).all(), "two cubes share their vertices")
    m.event("solids")


def points(m, low=2, flat=True):
    V = m.rng.normal(size=(m.integer(low, 30), 3)) * m.pick([1, 1, 1e-3, 100]) + m.pick([0, 10, -3])
    form = m.pick(["any", "any", "flat", "line", "integer", "single"])
    if form == "flat":
        V[:, m.integer(0, 2)] = m.real(-2, 2)
    elif form == "line":
        V[:, :2] = m.real(-2, 2)
    elif form == "integer":
        V = m.rng.integers(-9, 9, V.shape)
        V[0] += 20
    elif form == "single":
        V = V.astype(np.float32)
    return V, form


def fits(m):
    V, form = points(m)
    before = V.copy()
    W = np.asarray(glm.fit(V), float)
    tol = 1e-4 if V.dtype == np.float32 else 1e-8
    label = f"fit of {V.shape} {form}"
    m.eq(V, before, f"{label}: input afterwards")
    size = np.ptp(V.astype(float), axis=0)
    # One scaling and one shift, filling the cube along the longest side
    middle = (V.max(axis=0).astype(float) + V.min(axis=0)) / 2
    m.close(W, (V - middle) * 2 / size.max(), label, tol)
    m.close([np.abs(W).max()], [1], f"{label}: largest coordinate", tol)
    C = np.asarray(glm.center(V), float)
    m.eq(V, before, f"center of {form}: input afterwards")
    m.close(C, V - middle, f"center of {V.shape} {form}", tol)
    m.close(C.min(axis=0), -C.max(axis=0), f"center of {form}: extents", tol)
    m.event(label)
    m.seen("fit", form, len(V) > 5)


def vectors(m):
    form = m.pick(["single", "rows", "grid", "list", "integer", "some null"])
    shape = {"single": (), "grid": (2, 3)}.get(form, (m.integer(1, 8),)) + (m.integer(2, 4),)
    V = m.rng.normal(size=shape) * m.pick([1, 1e-3, 1e3])
    if form == "integer":
        V = m.rng.integers(1, 9, shape)
    if form == "some null":
        V[0] = 0
    before = V.copy()
    N = np.asarray(glm.normalize(V.tolist() if form == "list" else V), float)
    m.eq(V, before, "normalize: input afterwards")
    length = np.sqrt((V.astype(float) ** 2).sum(axis=-1))
    want = np.where(length[..., None] > 0, V / np.where(length, length, 1)[..., None], 0)
    m.close(N, want, f"normalize of {form}", 1e-6)
    m.seen("normalize", form, shape)
    # clamp
    low = m.pick([0, m.real(-3, 0)])
    high = m.pick([1, m.real(0.1, 4)])
    kwargs = m.pick([{}, {"vmin": low}, {"vmax": high}, {"vmin": low, "vmax": high}])
    got = np.asarray(glm.clamp(V, **kwargs), float)
    a, b = kwargs.get("vmin", 0), kwargs.get("vmax", 1)
    m.eq(V, before, "clamp: input afterwards")
    want = [[min(max(x, a), b) for x in row] for row in V.reshape(-1, V.shape[-1]).tolist()]
    m.close(got.reshape(-1, V.shape[-1]), want, f"clamp({kwargs})", 1e-9)
    m.event("vectors", form)
    m.seen("clamp", form, tuple(kwargs))


def faces(m):
    """Counter-clockwise triangles face the front."""
    n, k = m.integer(1, 20), m.integer(2, 4)
    T = m.rng.normal(size=(n, 3, k)) * m.pick([1, 1, 50])
    flat = m.chance(0.3)
    if flat:        # no area at all
        T[m.integer(0, n - 1)] = m.pick([0.0, 1.0, np.outer([0, 1, 2], [1.0] * k), np.eye(k)[[0, 0, 1]]])
    before = T.copy()
    front, back = glm.frontback(T)
    m.eq(T, before, "frontback: input afterwards")
    a, b = T[:, 1, :2] - T[:, 0, :2], T[:, 2, :2] - T[:, 0, :2]
    turn = a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]
    clear = np.abs(turn) > 1e-9
    front, back = np.asarray(front), np.asarray(back)
    if front.dtype == bool:
        m.check((front ^ back).all(), "a triangle is neither front nor back, or both")
        m.eq(front[clear], (turn > 0)[clear], "front facing triangles")
    else:
        m.eq(len(front) + len(back), n, "front and back facing triangles")
        if clear.all():
            m.eq(front, T[turn > 0], "front facing triangles")
            m.eq(back, T[turn < 0], "back facing triangles")
    m.seen("frontback", n > 5, k)
    # Turning a triangle over changes its side
    again, _ = glm.frontback(T[:, ::-1])
    if front.dtype == bool:
        m.check((np.asarray(again)[clear] != front[clear]).all(), "sides of the triangles turned over")
    m.event("faces", n)


def files(m):
    """A mesh file written in the forms the format allows."""
    V, form = points(m, 3)
    V = np.round(V.astype(float), 4)
    V[0] += [3, 2, 1]
    n = m.integer(1, 12)
    corners = 4 if len(V) > 3 and m.chance(0.2) else 3
    F = np.array([m.rng.choice(len(V), corners, replace=False) for _ in range(n)])
    style = m.pick(["v", "v/t", "v//n", "v/t/n"])
    lines = ["# generated", "", "mtllib none.mtl", "o thing"]
    remarks = m.pick([[""], ["", " 1.0"], ["", " # corner", "  # 1 2 3"]])
    number = m.pick([str, str, lambda x: f"{x:.10e}", lambda x: f"{x:+.6f}"])
    first = len(lines)
    lines += [f"v {number(x)} {number(y)} {number(z)}" + m.pick(remarks) for x, y, z in V]
    if m.chance():
        lines.insert(5, "   ")
    if "t" in style:
        lines += [f"vt {m.real(0, 1):.3f} {m.real(0, 1):.3f}" for _ in V]
    if "n" in style:
        lines += ["vn 0 0 1" for _ in V]
    lines += ["g part", "s off", "usemtl none"]
    for f in F:
        words = [style.replace("v", str(i + 1)).replace("t", str(i + 1)).replace("n", str(i + 1)) for i in f]
        lines.append("f " + m.pick([" ", "  "]).join(words) + m.pick(["", "", " "]))
        if m.chance(0.1):
            lines.append("# comment 1 2 3")
    mixed = m.chance(0.3)
    if mixed:       # elements in any order, each kind in its own
        rest = lines[first:]
        kinds = {}
        for line in rest:
            kinds.setdefault((line.split() or [""])[0], []).append(line)
        turn = [(line.split() or [""])[0] for line in rest]
        lines[first:] = [kinds[turn[i]].pop(0) for i in m.rng.permutation(len(turn))]
    ending = m.pick(["\n", "\r\n"])
    handle, path = tempfile.mkstemp(suffix=".obj")
    try:
        with os.fdopen(handle, "w", newline="") as stream:
            stream.write(ending.join(lines) + m.pick(["", ending]))
        result = glm.mesh(path)
    finally:
        os.unlink(path)
    vertices, indices = result[0], result[1]
    size = np.ptp(V, axis=0).max()
    m.close(vertices, (V - (V.max(axis=0) + V.min(axis=0)) / 2) * 2 / size, f"vertices of a mesh file ({style})", 1e-6)
    m.eq(np.asarray(indices), F, f"faces of a mesh file ({style})")
    m.event("mesh", style, n)
    m.seen("mesh", style, form, n > 3, mixed, corners)


RANDOM = [(sphere, 120, 2500), (solids, 6, 20), (fits, 150, 6000), (vectors, 150, 6000), (faces, 150, 6000),
          (files, 80, 3000)]
