"""Rotation matrices, angles, projections (C19, C20)."""
import math
import numpy as np
import gen
import general_optics as G
import optics3d as O
from enc import num, vec, is_finite
from record import Episode


def scaled_vec(v):
    """a direction, brought to a length that fixed point numbers carry"""
    v = [float(x) for x in v]
    m = max(abs(x) for x in v)
    k = 1.0 if 1e-2 <= m <= 1e4 else 2.0 ** -math.floor(math.log2(m))
    return vec([x * k for x in v])


def typed(g, v):
    """the same numbers in another type; -> (argument, exact floats)"""
    x = g.random()
    v = [float(a) for a in v]
    if x < 0.5:
        return np.array(v), v
    if x < 0.6:
        return list(v), v
    if x < 0.7:
        return tuple(v), v
    m = max(abs(a) for a in v)
    kind = np.dtype(INTS[int(g.integers(len(INTS)))])
    top = float(g.choice([9, 9, np.iinfo(kind).max / 2, np.iinfo(kind).max]))
    top = min(top, 4e9)
    w = [int(math.floor(top * (abs(a) if kind.kind == "u" else a) / m)) for a in v]
    if not any(w):
        w = [1, 0, 0]
    if x < 0.9:
        return np.array(w, dtype=kind), [float(a) for a in w]
    return w, [float(a) for a in w]


INTS = [np.int64, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64]


def whole(g, v):
    """points of whole numbers, of any type"""
    kind = np.dtype(INTS[int(g.integers(len(INTS)))])
    w = np.clip(np.round(np.abs(v) if kind.kind == "u" else v), max(np.iinfo(kind).min, -10**6), min(np.iinfo(kind).max, 10**6))
    return w.astype(kind)


def length(g):
    x = g.random()
    return 1.0 if x < 0.4 else 10 ** g.uniform(-3, 3) if x < 0.8 else 10 ** g.uniform(-100, 100)


def vector(g):
    x = g.random()
    if x < 0.2:
        return gen.AXES[g.integers(6)] * length(g)
    if x < 0.3:
        v = g.integers(-3, 4, size=3).astype(float)
        return v if np.any(v) else np.array([1.0, 1, 0])
    return gen.rnd_dir(g) * length(g)


def pair(g):
    """two vectors, often parallel, opposite or nearly so"""
    a = vector(g)
    x = g.random()
    u = a / np.linalg.norm(a)
    if x < 0.12:
        return a, a * g.choice([1.0, 2.0, 0.25])
    if x < 0.3:
        return a, -a * g.choice([1.0, 2.0, 0.25, 3.0])
    if x < 0.55:
        b = u * g.choice([-1.0, 1.0]) + gen.rnd_dir(g) * 10 ** g.uniform(-17, -1)
        return a, b * g.choice([1.0, 7.0])
    if x < 0.65:
        return a, gen.perp(g, u) * length(g)
    return a, vector(g)


def bits(x):
    a = np.asarray(x)
    return "%s%s:%s" % (type(x).__name__, a.dtype, a.tobytes().hex())


def untouched(e, prop, args, before):
    after = [bits(a) for a in args]
    e.event(e="untouched", prop=prop, before=before, after=after)


def rows(M):
    return [vec(r) for r in np.asarray(M, dtype=float)]


def matrix_event(ep, prop, f, args, **kw):
    before = [bits(a) for a in args]
    M = ep.guard(lambda: f(*args), f.__name__ + "()")
    if ep.dead:
        return
    fin = is_finite(M) and np.ndim(M) == 2
    ep.event(fin=fin, M=rows(M) if fin else [], **kw)
    untouched(ep, prop, args, before)


def matrices(g, id, own):
    e = Episode(id, own, [])
    for _ in range(8):
        if e.dead:
            break
        x = g.random()
        if x < 0.35:
            a, af = typed(g, vector(g))
            th = float(g.choice([0, math.pi, -math.pi, math.pi / 2, 2 * math.pi, 1e-9, 100.0])) if g.random() < 0.3 else float(g.uniform(-7, 7))
            if g.random() < 0.25:
                th = float(g.integers(-4, 5) * math.pi / 2 + 10 ** g.uniform(-14, -1) * g.choice([-1, 1]))
            if g.random() < 0.1:
                th = int(g.integers(-4, 5))
            matrix_event(e, "C19", G.rotation_matrix_axis_angle, [a, th], e="axisangle", axis=scaled_vec(af), angle=num(th))
        elif x < 0.9:
            a, b = pair(g)
            (a, af), (b, bf) = typed(g, a), typed(g, b)
            f, form = [(G.rotation_matrix2, "column"), (G.rotation_matrix, "row"), (G.rotation_matrix4, "4x4")][int(g.integers(3))]
            matrix_event(e, "C19", f, [a, b], e="align", form=form, v1=scaled_vec(af), v2=scaled_vec(bf))
        else:
            v = g.uniform(-50, 50, size=3) if g.random() < 0.5 else g.integers(-5, 6, size=3)
            v, vf = (v, [float(t) for t in v]) if g.random() < 0.5 else ([float(t) for t in v], [float(t) for t in v])
            f, form = [(G.scaling_matrix4, "scale"), (G.translation_matrix4, "translate")][int(g.integers(2))]
            matrix_event(e, "C19", f, [v], e="affine", form=form, v=vec(vf))
    return e


def scalar_event(ep, f, args, **kw):
    before = [bits(a) for a in args]
    r = ep.guard(lambda: f(*args), f.__name__ + "()")
    if ep.dead:
        return
    fin = is_finite(r)
    if np.ndim(r) == 0:
        ep.event(fin=fin, obs=num(r) if fin else [], **kw)
    else:
        fin = fin and np.ndim(r) == 1 and len(r) == 3
        ep.event(fin=fin, obs=vec(r) if fin else [], **kw)
    untouched(ep, "C20", args, before)


def helpers(g, id, own):
    e = Episode(id, own, [])
    for _ in range(10):
        if e.dead:
            break
        x = g.random()
        if x < 0.3:
            a, b = pair(g)
            (a, af), (b, bf) = typed(g, a), typed(g, b)
            scalar_event(e, G.angle_between, [a, b], e="angle", signed=False, v1=scaled_vec(af), v2=scaled_vec(bf))
        elif x < 0.6:
            n = gen.AXES[g.integers(6)] if g.random() < 0.3 else gen.rnd_dir(g)
            u = gen.perp(g, n)
            w = np.cross(n, u)
            t = float(g.choice([0, math.pi, math.pi / 2, -math.pi / 2])) if g.random() < 0.25 else g.uniform(-math.pi, math.pi)
            if g.random() < 0.15:
                t = g.choice([0, math.pi]) + 10 ** g.uniform(-12, -2) * g.choice([-1, 1])
            la, lb = float(10 ** g.uniform(-3, 3)), float(10 ** g.uniform(-3, 3))
            a, b = (u * math.cos(t) + w * math.sin(t)) * la, u * lb
            scalar_event(e, G.angle_between, [a, b, n], e="angle", signed=True, v1=scaled_vec(a), v2=scaled_vec(b), n=vec(n))
        elif x < 0.75:
            v, vf = typed(g, gen.rnd_dir(g) * 10 ** g.uniform(-3, 3) if g.random() < 0.7 else gen.AXES[g.integers(6)] * 3)
            n, nf = typed(g, vector(g))
            if g.random() < 0.4:                            # almost in the plane, or almost across it
                k = 10 ** g.uniform(-3, 3)
                u = nf / np.linalg.norm(nf)
                a = gen.perp(g, u)
                a, b = (a, u) if g.random() < 0.7 else (u, a)
                v = vf = k * (a + b * 10 ** g.uniform(-12, -2) * g.choice([-1, 1]))
            scalar_event(e, G.project_onto_plane, [v, n], e="project", v=vec(vf), n=scaled_vec(nf))
        elif x < 0.9:
            v, vf = typed(g, vector(g))
            scalar_event(e, G.unit_vector, [v], e="unit", v=scaled_vec(vf))
        else:
            k = 10 ** g.uniform(-3, 4)
            a, b = g.uniform(-k, k, size=3), g.uniform(-k, k, size=3)
            if g.random() < 0.5:
                a, b = whole(g, a), whole(g, b) if g.random() < 0.7 else b
            scalar_event(e, G.distance_between, [a, b], e="distance", v1=vec(a), v2=vec(b))
    return e


def register(suite):
    suite("C19", "matrices", matrices, 700, 9000)
    suite("C20", "helpers", helpers, 700, 9000)
