"""Random worlds and rays (descriptions only; nothing here runs the code under test)."""
import math
import numpy as np


def rnd_dir(g):
    while True:
        v = g.normal(size=3)
        l = np.linalg.norm(v)
        if l > 1e-3:
            return v / l


def perp(g, n):
    while True:
        v = np.cross(n, rnd_dir(g))
        l = np.linalg.norm(v)
        if l > 1e-2:
            v = v / l
            v = v - n * np.dot(v, n)       # as perpendicular as doubles get
            return v / np.linalg.norm(v)


AXES = [np.array(v, dtype=float) for v in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))]


def normal(g):
    """a normal of any length; often along an axis, sometimes nearly so"""
    r = g.random()
    if r < 0.2:
        n = AXES[g.integers(6)].copy()
    elif r < 0.3:
        n = AXES[g.integers(6)] + 10 ** g.uniform(-9, -2) * rnd_dir(g)
    else:
        n = rnd_dir(g)
    return n * (1.0 if g.random() < 0.5 else 10 ** g.uniform(-2, 2))


FLAT = ["disc", "rect"]


def optic(g, kind, L, inside=0.8):
    """a random optic of a kind ("mirror-disc", ...) in the cube of half edge L"""
    c = g.uniform(-inside * L, inside * L, size=3)
    if g.random() < 0.15:
        c = np.round(c)
    size = L * g.uniform(0.15, 0.7)
    act, _, k = kind.partition("-")
    o = dict(act=act, k=k, c=list(map(float, c)))
    if g.random() < 0.3:
        o["int"] = True
    if act in ("annotation", "filter", "window"):
        o.update(k="ignored", n=list(normal(g)), own=bool(g.random() < 0.3))
        return o
    if k in ("disc", "rect", "concave"):
        n = normal(g)
        o["n"] = list(map(float, n))
    if k == "rect":
        t = perp(g, n / np.linalg.norm(n)) * (1.0 if g.random() < 0.5 else g.uniform(0.2, 5))
        o.update(tan=list(map(float, t)), h=float(2 * size * g.uniform(0.5, 1.2)), w=float(2 * size * g.uniform(0.5, 1.2)))
    if k == "disc":
        o["R"] = float(size)
    if k == "concave":
        f = size * (g.uniform(0.6, 4) if g.random() < 0.7 else g.uniform(0.4, 0.7))
        o.update(f=float(f), R=float(min(size, 2 * f * (0.95 if g.random() < 0.5 else 1 - 10 ** g.uniform(-3, -0.5))) if g.random() < 0.8 else size))
    if k == "sphere":
        o["R"] = float(size * 0.7)
    if act == "dmd":
        o["dmd"] = list(map(float, np.array(o["n"]) / np.linalg.norm(o["n"]) + 0.4 * rnd_dir(g)))
    if act in ("ideal", "focus", "collimate"):
        o["f"] = float(L * (g.uniform(0.1, 2) if g.random() < 0.8 else 10 ** g.uniform(-4, 3)) * (1 if g.random() < 0.6 else -1))
    if act == "grating":
        o["G"] = float(g.choice([50, 100, 300, 600, 1200, 1800, 2400]) if g.random() < 0.7 else g.uniform(10, 3000))
        o["gorder"] = int(g.integers(-2, 3))
    if act == "refract" or k == "solid":
        o["index"] = float(g.choice([1.5, 1.33, 2.4, 1.05, 1.0, 0.7]) if g.random() < 0.6 else g.uniform(0.6, 2.5) if g.random() < 0.8 else 1 + g.choice([-1, 1]) * 10 ** g.uniform(-6, -2))
    if k == "solid":
        prims, tree = solid(g, c, size)
        o.update(prims=prims, tree=tree)
    return o


def tree_of(g, leaves):
    """a random expression over leaves i..j in order"""
    if len(leaves) == 1:
        return dict(op="leaf", i=leaves[0])
    s = int(g.integers(1, len(leaves)))
    return dict(op=str(g.choice(["union", "intersect", "difference"])), l=tree_of(g, leaves[:s]), r=tree_of(g, leaves[s:]))


def chain(g, leaves):
    """a tree as deep as it can be"""
    t = dict(op="leaf", i=leaves[0])
    for i in leaves[1:]:
        x = dict(op="leaf", i=i)
        a, b = (t, x) if g.random() < 0.6 else (x, t)
        t = dict(op=str(g.choice(["union", "union", "intersect", "difference"])), l=a, r=b)
    return t


def solid(g, c, size, nmax=5, cyl=0.25):
    n = int(g.choice([1, 2, 2, 2, 3, 3, 4, nmax]))
    prims = []
    for _ in range(n):
        q = c + size * 0.6 * g.uniform(-1, 1, size=3)
        if g.random() < cyl:
            prims.append(dict(shape="cyl", c=list(map(float, q)), R=float(size * g.uniform(0.2, 0.6)), a=list(map(float, normal(g))),
                              useR=bool(g.random() < 0.5)))
        else:
            prims.append(dict(shape="sphere", c=list(map(float, q)), R=float(size * g.uniform(0.3, 0.9)), useR=bool(g.random() < 0.5)))
    leaves = list(range(1, n + 1))
    if n > 1 and g.random() < 0.15:
        leaves.append(int(g.integers(1, n + 1)))          # the same primitive twice
    return prims, tree_of(g, leaves)


def reach(o):
    """a ball around the refracting matter of an optic: (centre, radius), or None"""
    if o["act"] != "refract":
        return None
    if o["k"] == "sphere":
        return np.array(o["c"]), o["R"]
    cs = np.array([p["c"] for p in o["prims"]])
    c = cs.mean(axis=0)
    return c, max(np.linalg.norm(np.array(p["c"]) - c) + p["R"] for p in o["prims"])


def compatible(o, others):
    """refracting bodies do not overlap"""
    a = reach(o)
    if a is None:
        return True
    for x in others:
        b = reach(x)
        if b is None:
            continue
        if any(p["shape"] == "cyl" for y in (o, x) if y["k"] == "solid" for p in y["prims"]):
            return False
        if np.linalg.norm(a[0] - b[0]) < a[1] + b[1] + 1e-3:
            return False
    return True


def box(g, L, act="mirror"):
    """six walls of a room"""
    out = []
    for n in AXES:
        t = AXES[(int(np.argmax(np.abs(n))) * 2 + 2) % 6]
        out.append(dict(act=act, k="rect", c=list(map(float, -n * L)), n=list(map(float, n)), tan=list(map(float, t)), h=2.2 * L, w=2.2 * L))
    return out


def scene(g, kinds, n, L, walls=None, tries=20):
    out = []
    for _ in range(n):
        for _ in range(tries):
            o = optic(g, str(g.choice(kinds)), L)
            if compatible(o, out):
                out.append(o)
                break
    if walls is not None:
        out += box(g, L * 1.02, walls)
    perm = g.permutation(len(out))
    return [out[k] for k in perm]


def target(g, o, L):
    """a point on or near an optic"""
    c = np.array(o["c"])
    if o["k"] == "ignored":
        return c
    if o["k"] in ("disc", "rect", "concave"):
        n = np.array(o["n"]) / np.linalg.norm(o["n"])
        t = perp(g, n)
        s = o["R"] if "R" in o else 0.5 * min(o["h"], o["w"])
        return c + t * s * g.uniform(0, 1.15)
    if o["k"] == "sphere":
        return c + rnd_dir(g) * o["R"] * g.uniform(0, 1.1)
    p = o["prims"][int(g.integers(len(o["prims"])))]
    return np.array(p["c"]) + rnd_dir(g) * p["R"] * g.uniform(0, 1.1)


def ray(g, optics, L):
    """start point and direction of any length, mostly aimed at an optic"""
    p = g.uniform(-0.95 * L, 0.95 * L, size=3)
    if optics and g.random() < 0.85:
        d = target(g, optics[int(g.integers(len(optics)))], L) - p
        if np.linalg.norm(d) < 1e-3 * L:
            d = rnd_dir(g)
    else:
        d = rnd_dir(g)
    d = d / np.linalg.norm(d)
    r = g.random()
    if r < 0.05:
        d = AXES[g.integers(6)].copy()
    return list(map(float, p)), list(map(float, d * length(g)))


def length(g):
    """the length of a launch direction: one, nearly one, or anything"""
    r = g.random()
    if r < 0.5:
        return 1.0
    if r < 0.65:
        return 1.0 + 10 ** g.uniform(-12, -1.3) * g.choice([-1, 1])
    return 10 ** g.uniform(-3, 3)


def sliver(g, o, L):
    """nearly a copy of an optic: moved by a little (any power of ten), sometimes turned by a little or resized, or another kind"""
    q = dict(o)
    by = 10 ** g.uniform(-7, -1) * g.choice([-1, 1])
    n = np.array(o["n"]) / np.linalg.norm(o["n"]) if "n" in o and g.random() < 0.7 else rnd_dir(g)
    q["c"] = list(map(float, np.array(o["c"]) + n * by))
    if "prims" in o:
        q["prims"] = [dict(p, c=list(map(float, np.array(p["c"]) + n * by))) for p in o["prims"]]
    elif o["k"] == "sphere" and g.random() < 0.5:
        q.update(c=o["c"], R=float(o["R"] + by * 0.1))
    elif o["k"] in ("disc", "rect") and g.random() < 0.5:
        q["act"] = str(g.choice(["mirror", "block"]))
    return q


def attrs(g):
    x = g.random()
    wl = float(g.choice([532, 450, 680, 1064])) if x < 0.45 else float(g.uniform(300, 1100)) if x < 0.85 else float(10 ** g.uniform(-2, 5))
    if x > 0.97:
        wl = int(g.integers(1, 2000))
    order = int(g.choice([0, 1, -1, 2, -2]))
    y = g.random()
    if y > 0.95:                                      # between two orders, as a scan over orders has them
        order = float(g.choice([0.5, -0.5, 1.5])) if g.random() < 0.5 else float(g.uniform(-2, 2))
    elif y > 0.86:
        order = int(g.integers(-60, 61))
    return dict(wl=wl, order=order)
