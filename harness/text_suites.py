"""Printed numbers, printed rays and optics, the ten-column table (C22)."""
import math
import numpy as np
import gen
import general
import optics3d as O
import world as W
from enc import limbs, is_finite
from record import Episode
from tracer_suites import ALL, SCALES, world


def chars(s):
    return [ord(c) for c in s]


def exact(x):
    """a finite number as num / 2^k, with the exponent of its leading decimal digit (give or take a few)"""
    a, b = float(x).as_integer_ratio()
    return dict(num=limbs(a), k=b.bit_length() - 1, guess=0 if a == 0 else int(math.floor(math.log10(abs(float(x))))))


def number(g, p):
    x = g.random()
    if x < 0.15:
        return float(g.choice([0.0, -0.0, 1.0, -1.0, 0.01, 0.001, 0.1, 10.0, 100.0, 1e5, 99999.0, 123456.0, 5e-3]))
    if x < 0.3:                                            # around a power of ten
        return float(10.0 ** g.integers(-6, 12) * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-12, -1)))
    if x < 0.45:                                           # nines that round up
        return float(g.choice([-1, 1]) * (10.0 ** g.integers(-4, 8)) * (1 - 10.0 ** -g.integers(1, p + 4) / 3))
    if x < 0.55:                                           # p digits and a half
        m = int(g.integers(10 ** (p - 1), 10 ** p))
        return float((m + g.choice([0.0, 0.25, 0.75, 0.49, 0.51])) * 10.0 ** g.integers(-p - 4, 6))
    if x < 0.7:
        return float(g.integers(-10 ** 6, 10 ** 6))
    if x < 0.9:
        return float(g.choice([-1, 1]) * 10 ** g.uniform(-8, 12))
    return float(g.choice([-1, 1]) * 10 ** g.uniform(-290, 290))


def numbers(g, id, own):
    e = Episode(id, own, [])
    for _ in range(25):
        p = int(g.integers(1, 11))
        v = number(g, p)
        x = v
        r = g.random()
        if r < 0.1:
            x = np.float64(v)
        elif r < 0.2 and v == int(v) and abs(v) < 2 ** 53:
            x = int(v)
        elif r < 0.23:
            x = float("nan")
        s = e.guard(lambda: general.to_precision(x, p), "to_precision()")
        if e.dead:
            break
        nan = bool(x != x)
        e.event(e="precision", p=p, nan=nan, x=exact(0 if nan else v), chars=chars(str(s)))
    return e


KINDS = ["mirror-disc", "mirror-rect", "mirror-concave", "mirror-sphere", "ideal-disc", "focus-disc", "refract-sphere", "grating-rect",
         "detector-rect", "block-disc", "annotation-ignored", "filter-ignored", "window-ignored", "dmd-rect"]


def shown(e, obj, xs):
    if e.dead or not is_finite(xs):
        return
    s = e.guard(lambda: repr(obj), "repr()")
    if not e.dead:
        e.event(e="repr", chars=chars(s), xs=[exact(x) for x in xs])


def reprs(g, id, own):
    L = float(g.choice(SCALES))
    ops = gen.scene(g, KINDS, int(g.integers(1, 6)), L)
    e = Episode(id, own, ops)
    if e.dead:
        return e
    p, d = gen.ray(g, ops, L)
    if g.random() < 0.2:
        p = [round(x) for x in p]
    ray = e.guard(lambda: O.Ray(np.array(p), np.array(d)), "Ray()")
    for k in range(3):
        if e.dead:
            break
        shown(e, ray, list(ray.position) + list(ray.direction))
        x = g.random()
        if x < 0.3:                                   # turned where it is
            n = gen.rnd_dir(g)
            e.guard(lambda: ray.reflect(normal=n), "Ray.reflect()")
        elif x < 0.5:                                 # set somewhere else, or turned, by hand
            if g.random() < 0.5:
                ray.position = np.array(gen.rnd_dir(g)) * L
            else:
                ray.direction = np.array(gen.rnd_dir(g))
        else:
            e.guard(lambda: ray.run(L * g.uniform(0.1, 3), e.optics), "Ray.run()")
    for o, desc in zip(e.optics, ops):
        n = getattr(o, "normal", None)
        shown(e, o, list(o.position) + (list(n) if n is not None else []))
    return e


def tables(g, id, own):
    e = Episode(id, own, [])
    for _ in range(4):
        n = int(g.choice([0, 1, 9, 10, 11, 20, 25, int(g.integers(0, 60))])) if g.random() < 0.95 else int(g.integers(60, 1300))
        ints = g.random() < 0.3
        vals = g.integers(-50, 50, size=n) if ints else np.round(g.normal(size=n) * 10 ** g.uniform(-3, 3), 6)
        fmt = str(g.choice(["d", "5d", "+d"] if ints else ["6.3f", "8.4g", ".2e", "10.5f", "+.1f", ""]))
        if g.random() < 0.3:
            vals = [v.item() for v in vals]
        left, right, indent = (int(g.integers(0, 5)) for _ in range(3))
        s = e.guard(lambda: general.prism10widetextarray(vals, left, right, indent, fmt), "prism10widetextarray()")
        if e.dead:
            break
        e.event(e="table", chars=chars(s), cells=[chars(format(v, fmt)) for v in vals], neg=[bool(v < 0) for v in vals],
                left=left, right=right, indent=indent)
    return e


def spaced(g, id, own):
    e = Episode(id, own, [])
    for _ in range(3):
        nd = int(g.integers(1, 4))
        shape = tuple(int(n) for n in g.integers(1, 6 if nd > 1 else 60, size=nd)) if g.random() < 0.97 else (int(g.integers(900, 1200)),)
        a = g.normal(size=shape) * 10 ** g.uniform(-3, 3)
        fmt = str(g.choice(["6.3f", "8.4g", ".2e", "+.1f"]))
        left, right, width = int(g.integers(0, 5)), int(g.integers(0, 4)), int(g.integers(20, 140))
        s = e.guard(lambda: general.nparray2spacedstring(a, " " * left, fmt, " " * right, width), "nparray2spacedstring()")
        if e.dead:
            break
        cells = [format(x, fmt) for x in a.ravel()]
        e.event(e="spaced", chars=chars(s), cells=[chars(c) for c in cells], left=left, right=right, width=width,
                fits=bool(max(map(len, cells)) + left + right + nd + 2 <= width))
    return e


def register(suite):
    suite("C22", "spaced", spaced, 120, 1500)
    suite("C22", "numbers", numbers, 600, 9000)
    suite("C22", "reprs", reprs, 300, 4000)
    suite("C22", "tables", tables, 150, 2000)
