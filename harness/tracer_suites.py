"""Episodes of the ray tracer."""
import numpy as np
import gen
from instruments import instrument
import optics3d as O
from enc import num, vec, is_finite
from record import Episode

def scaled(v):
    """a direction, brought to a length that fixed point numbers carry"""
    m = max(abs(float(x)) for x in v)
    k = 1.0 if 1e-2 <= m <= 1e4 else 2.0 ** -int(np.floor(np.log2(m)))
    return vec([float(x) * k for x in v])


FLATS = ["mirror-disc", "mirror-rect", "ideal-disc", "collimate-disc", "focus-disc", "grating-rect", "detector-rect",
         "block-rect", "block-disc", "dmd-disc", "dmd-rect"]
CURVED = ["mirror-concave", "mirror-sphere", "refract-sphere", "block-sphere", "dmd-concave"]
SOLIDS = ["mirror-solid", "refract-solid"]
IGNORED = ["annotation-ignored", "filter-ignored", "window-ignored"]
ALL = FLATS + CURVED + SOLIDS + IGNORED
MIRRORS = ["mirror-disc", "mirror-rect", "mirror-concave", "mirror-sphere", "mirror-solid", "dmd-disc", "dmd-rect", "dmd-concave"]
IDEAL = ["ideal-disc", "collimate-disc", "focus-disc"]
REFRACT = ["refract-sphere", "refract-solid"]
ENDS = ["detector-rect", "block-rect", "block-disc", "block-sphere"]
REVERSIBLE = ["mirror-disc", "mirror-rect", "mirror-sphere", "mirror-concave", "mirror-solid", "ideal-disc", "refract-sphere", "refract-solid", "dmd-rect"]
SCALES = [1.0, 10.0, 100.0, 1000.0]


def world(g, kinds, nmax=8, wallp=0.5):
    L = float(g.choice(SCALES))
    walls = None
    if g.random() < wallp:
        walls = str(g.choice(["mirror", "mirror", "mirror", "detector"]))
    n = int(g.integers(1, nmax + 1))
    return L, gen.scene(g, kinds, n, L, walls)


def budget(g, L, legs=6):
    if g.random() < 0.05:                                  # next to nothing
        return float(L * 10 ** g.uniform(-12, -3))
    if g.random() < 0.1:                                   # a whole number
        return int(np.ceil(L * g.uniform(0.05, legs)))
    return float(L * g.uniform(0.05, legs))


def cap(g):
    return [None, None, np.inf, 0, 1, 2, 3, 5, 8][int(g.integers(9))]


def shuffled(g, ops):
    return list(map(int, g.permutation(len(ops)) + 1))


# ---------------------------------------------------------------- any history
def free_history(g, id, own, kinds=ALL, nmax=8, nev=6, flies=True, faerie=0.15, rays=3, walls=0.5):
    """any sequence of runs and single flights of several rays through one world"""
    L, ops = world(g, kinds, nmax, walls)
    e = Episode(id, own, ops)
    rs = []
    for _ in range(int(g.integers(1, rays + 1))):
        p, d = gen.ray(g, ops, L)
        rs.append(e.launch(p, d, type="faerie_fire" if g.random() < faerie else "normal", **gen.attrs(g)))
    for _ in range(int(g.integers(2, nev + 1))):
        r = rs[int(g.integers(len(rs)))]
        x = g.random()
        if flies and x < 0.1:
            e.fly(r, float(L * g.uniform(0.01, 1) * (1 if g.random() < 0.8 else -1)))
        elif x < 0.2:
            e.run(r, float(g.choice([0.0, -1.0, -L])), cap(g))
        elif x < 0.27:                                # through empty space, or with some of the optics only
            some = [k for k in shuffled(g, ops) if g.random() < 0.5] if g.random() < 0.5 else []
            if some and g.random() < 0.5:             # some of them named twice
                some.insert(int(g.integers(len(some) + 1)), int(g.choice(some)))
            e.run(r, budget(g, L), cap(g), order=some)
        else:
            e.run(r, budget(g, L), cap(g), order=shuffled(g, ops) if g.random() < 0.3 else None)
    return e


def stepping(g, id, own, kinds=ALL, nmax=8, steps=8, wallp=0.7):
    """one interaction per run, so that every direction is observed"""
    L, ops = world(g, kinds, nmax, wallp)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, **gen.attrs(g))
    for _ in range(steps):
        e.run(r, 10 * L, 1)
        if e.dead or e.rays[0].blocked:
            break
    return e


def aged(g, id, own, kinds, nmax=4):
    """a ray that has a long way behind it"""
    L, ops = world(g, kinds, nmax, 0.0)
    ops += gen.box(g, L * 1.02, "mirror")
    ops = [ops[k] for k in g.permutation(len(ops))]
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, **gen.attrs(g))
    left = int(g.integers(50, 110))
    while left > 0 and not e.dead and not e.rays[0].blocked:
        k = int(min(left, g.integers(10, 60)))
        e.run(r, 1e9, k)
        left -= k
    return e


def crowd(g, id, own):
    """a hundred small optics; some, one or all interactions at a time"""
    L = float(g.choice(SCALES))
    ops = []
    for _ in range(int(g.integers(40, 130))):
        o = gen.optic(g, str(g.choice(["mirror-disc", "mirror-rect", "block-disc", "detector-rect", "mirror-sphere", "ideal-disc", "grating-rect"])), L * 0.2)
        o["c"] = list(map(float, np.array(o["c"]) * 5))
        ops.append(o)
    ops += gen.box(g, L * 1.02, "mirror")
    ops = [ops[k] for k in g.permutation(len(ops))]
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, **gen.attrs(g))
    for _ in range(3):
        e.run(r, 10 * L, [1, 1, 2, 4][int(g.integers(4))])
        if e.dead or e.rays[0].blocked:
            break
    return e


def aimed(g, id, own, kinds, n=5):
    """many rays at one optic (and sometimes a second one), one interaction each"""
    L = float(g.choice(SCALES))
    ops = gen.scene(g, kinds, 1 if g.random() < 0.7 else 2, L, None)
    e = Episode(id, own, ops)
    for _ in range(n):
        p, d = gen.ray(g, ops, L)
        r = e.launch(p, d, **gen.attrs(g))
        e.run(r, 10 * L, 1)
        if g.random() < 0.5:
            e.run(r, 10 * L, 1)
    return e


def whole(g, id, own, kinds=ALL, nmax=8, legs=8, wallp=0.7):
    L, ops = world(g, kinds, nmax, wallp)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, **gen.attrs(g))
    e.run(r, budget(g, L, legs * 2), None if g.random() < 0.7 else int(g.integers(1, legs)))
    return e


def split(g, id, own, kinds=ALL):
    """one run against the same run in parts"""
    L, ops = world(g, kinds, 6, 0.4)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    at = gen.attrs(g)
    parts = [float(L * g.uniform(0.05, 1.5)) for _ in range(int(g.integers(2, 5)))]
    a = e.launch(p, d, **at)
    e.run(a, sum(parts))
    b = e.launch(p, d, **at)
    for x in parts:
        e.run(b, x)
    e.relate("end", a, b, 1e-6 * max(1, L), own + ":run in parts ends elsewhere than the single run")
    return e


def orders(g, id, own, kinds=ALL):
    """the same ray through differently ordered lists"""
    L, ops = world(g, kinds, 8, 0.4)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    at = gen.attrs(g)
    D = budget(g, L, 6)
    a = e.launch(p, d, **at)
    e.run(a, D)
    for _ in range(2):
        b = e.launch(p, d, **at)
        e.run(b, D, order=shuffled(g, ops))
        e.relate("path", a, b, 1e-9 * max(1, L), own + ":path depends on the list order")
    vis = [k + 1 for k, o in enumerate(ops) if o["k"] != "ignored"]
    if len(vis) < len(ops):
        b = e.launch(p, d, **at)
        e.run(b, D, order=vis)
        e.relate("path", a, b, 1e-9 * max(1, L), own + ":annotations, filters or windows affect the ray")
    return e


def changing(g, id, own, kinds=ALL):
    """the list of optics is changed between runs: some taken out, some put in, mostly as many as before"""
    L, ops = world(g, kinds, nmax=10)
    e = Episode(id, own, ops)
    n = len(ops)
    order = list(map(int, g.permutation(n)[: max(1, n // 2)] + 1))
    r = None
    for _ in range(7):
        if e.dead:
            break
        if r is None or g.random() < 0.6:
            p, d = gen.ray(g, [ops[k - 1] for k in order] if g.random() < 0.5 else ops, L)
            r = e.launch(p, d, wl=float(g.choice([532, 450])), order=int(g.integers(-1, 2)))
        e.run(r, budget(g, L), int(g.integers(1, 5)) if g.random() < 0.5 else None, order=order)
        if g.random() < 0.1:                          # through empty space for a while
            e.run(r, L * g.uniform(0.1, 1), order=[])
        order = list(order)
        rest = [k for k in range(1, n + 1) if k not in order]
        x = g.random()
        if x < 0.6 and rest:
            order[int(g.integers(len(order)))] = int(g.choice(rest))
        elif x < 0.75 and rest:
            order.insert(int(g.integers(len(order) + 1)), int(g.choice(rest)))
        elif x < 0.9 and len(order) > 1:
            order.pop(int(g.integers(len(order))))
    return e


def far_and_near(g, id, own, kinds=ALL):
    """worlds with extreme scales: tiny optics, huge distances"""
    L = float(10 ** g.uniform(-2, 5))
    ops = gen.scene(g, kinds, int(g.integers(1, 6)), L, "mirror" if g.random() < 0.5 else None)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, **gen.attrs(g))
    for _ in range(3):
        e.run(r, budget(g, L, 4), cap(g))
    return e


# -------------------------------------------------------------- exact worlds
def lattice_optic(g, kind, N, half=0.5):
    act, _, k = kind.partition("-")
    ax = int(g.integers(3))
    n = np.zeros(3)
    n[ax] = g.choice([-1.0, 1.0, -2.0, 0.5])
    c = g.integers(-N, N + 1, size=3).astype(float)
    if g.random() < 0.2:
        c = c + g.choice([0, half], size=3)
    o = dict(act=act, k=k, c=list(map(float, c)), n=list(map(float, n)))
    if k == "rect":
        t = np.zeros(3)
        t[(ax + int(g.integers(1, 3))) % 3] = g.choice([-1.0, 1.0, 4.0])
        o.update(tan=list(map(float, t)), h=float(g.integers(0 if g.random() < 0.2 else 1, 2 * N)), w=float(g.integers(1, 2 * N)))
    if k == "disc":
        o["R"] = float(g.choice([1, 2, 3, 5, 0.5]))
    if act == "dmd":
        m = np.zeros(3)
        m[int(g.integers(3))] = 1.0
        o["dmd"] = list(m)
    if act in ("collimate",):
        o["f"] = float(g.choice([1, 2, 4, -2]))
    if act == "grating":
        o["G"] = 600.0
    if k == "ignored":
        o.pop("tan", None)
    if g.random() < 0.4:
        o["int"] = True
    return o


def stack(g, id, own):
    """optics of all kinds in a few planes: every meeting is an exact tie of some of them, and the first listed acts"""
    ax = int(g.integers(3))
    n = int(g.integers(3, 9))
    planes = list(map(float, g.choice(np.arange(-4, 5), size=int(g.integers(2, 4)), replace=False)))
    ops = []
    for _ in range(n):
        o = lattice_optic(g, str(g.choice(["detector-rect", "detector-rect", "detector-rect", "mirror-rect", "mirror-disc", "block-disc", "collimate-disc", "window-ignored"])), 2)
        u = np.zeros(3)
        u[ax] = g.choice([-1.0, 1.0])
        c = g.integers(-1, 2, size=3).astype(float)
        c[ax] = g.choice(planes)
        o.update(c=list(map(float, c)), n=list(map(float, u)))
        if o["k"] == "rect":
            t = np.zeros(3)
            t[(ax + int(g.integers(1, 3))) % 3] = g.choice([-1.0, 1.0])
            o.update(tan=list(map(float, t)), h=8.0, w=8.0)
        if o["k"] == "disc":
            o["R"] = 4.0
        ops.append(o)
    e = Episode(id, own, ops, ex=True)
    for _ in range(5):
        p = g.integers(-1, 2, size=3).astype(float)
        p[ax] = g.choice([-6.0, 6.0, 0.5])
        d = gen.AXES[2 * ax] * g.choice([-1.0, 1.0])
        r = e.launch(list(map(float, p)), list(map(float, d)), order=0, wl=532.0, type="faerie_fire" if g.random() < 0.05 else "normal")
        order = shuffled(g, ops)[: n if g.random() < 0.6 else n // 2 + 1]
        x = g.random()
        if x < 0.3:                                            # the same at both ends
            order = order + [order[0]]
        elif x < 0.5:                                          # some optic named twice
            order.insert(int(g.integers(len(order) + 1)), int(g.choice(order)))
        e.run(r, float(g.integers(1, 30)), cap(g), order=order)
        if e.dead:
            break
    return e


EXACT = ["mirror-disc", "mirror-rect", "mirror-rect", "dmd-rect", "detector-rect", "block-rect", "block-disc", "collimate-disc",
         "grating-rect", "annotation-ignored", "window-ignored"]


def lattice(g, id, own, kinds=EXACT, nmax=10, nev=4, rays=2, faerie=0.1, close=0.0):
    """axis-parallel rays and flat optics on an integer grid: ties, edges, exact budgets"""
    N = int(g.integers(1, 4))
    ops = [lattice_optic(g, str(g.choice(kinds)), N) for _ in range(int(g.integers(1, nmax + 1)))]
    if g.random() < 0.4 and ops:
        ops.append(dict(ops[0]))                               # an exact duplicate
    e = Episode(id, own, ops, ex=True)
    rs = []
    for _ in range(rays):
        p = g.integers(-N - 1, N + 2, size=3).astype(float)
        d = gen.AXES[g.integers(6)] * g.choice([1.0, 2.0, 0.25])
        if g.random() < close:                                 # a little before a surface, or behind it
            o = ops[int(g.integers(len(ops)))]
            ax = int(np.argmax(np.abs(o["n"])))
            d = gen.AXES[2 * ax] * g.choice([-1.0, 1.0, 2.0])
            p = np.array(o["c"]) - np.sign(d) * 2.0 ** -int(g.integers(12, 30)) * g.choice([1, 1, 1, -1])
        rs.append(e.launch(list(map(float, p)), list(map(float, d)), order=0, wl=float(g.choice([532, 450])),
                           dt=int if g.random() < 0.4 else float, type="faerie_fire" if g.random() < faerie else "normal"))
    for _ in range(nev):
        D = float(g.integers(0, 3 * N + 3)) + float(g.choice([0, 0, 0.5]))
        if g.random() < close / 2:
            D = 2.0 ** -int(g.integers(12, 36))
        order = shuffled(g, ops) if g.random() < 0.5 else None
        if order and g.random() < 0.4:                         # some optic named twice
            order.insert(int(g.integers(len(order) + 1)), int(g.choice(order)))
        e.run(rs[int(g.integers(len(rs)))], D, cap(g), order=order)
    return e


AXIAL = ["mirror-disc", "detector-rect", "block-disc", "block-sphere", "mirror-sphere", "mirror-concave", "refract-sphere", "ideal-disc",
         "focus-disc", "collimate-disc", "mirror-solid", "refract-solid", "mirror-rect"]


def axial_optic(g, kind, ax, N):
    act, _, k = kind.partition("-")
    n = gen.AXES[2 * ax] * g.choice([-1.0, 1.0])
    c = gen.AXES[2 * ax] * float(g.integers(-N, N + 1))
    o = dict(act=act, k=k, c=list(map(float, c)))
    if g.random() < 0.4:
        o["int"] = True
    if k in ("disc", "rect", "concave"):
        o["n"] = list(map(float, n))
    if k == "rect":
        o.update(tan=list(map(float, gen.AXES[2 * ((ax + 1) % 3)])), h=float(g.integers(1, 4)), w=float(g.integers(1, 4)))
    if k in ("disc", "sphere"):
        o["R"] = float(g.integers(1, 4))
    if k == "concave":
        o.update(R=1.0, f=float(g.choice([1, 1.5, 2, 4])))
    if act in ("ideal", "focus", "collimate"):
        o["f"] = float(g.choice([1, 2, 4, -2, -1]))
    if act == "refract" or k == "solid":
        o["index"] = float(g.choice([1.5, 1.25, 1.75]))
    if k == "solid":
        m = int(g.integers(1, 4))
        prims = [dict(shape="sphere", c=list(map(float, gen.AXES[2 * ax] * float(g.integers(-N, N + 1)))), R=float(g.integers(1, 4)))
                 for _ in range(m)]
        o.update(prims=prims, tree=gen.tree_of(g, list(range(1, m + 1))))
    return o


def axial(g, id, own, kinds=AXIAL, nmax=5, nev=4):
    """everything on one axis, at integers: ties and coincident surfaces, also of curved optics and solids"""
    N = int(g.integers(2, 9))
    ax = int(g.integers(3))
    ops = []
    for _ in range(int(g.integers(1, nmax + 1))):
        o = axial_optic(g, str(g.choice(kinds)), ax, N)
        if gen.compatible(o, ops):
            ops.append(o)
    e = Episode(id, own, ops, ex=True)
    rs = []
    for _ in range(2):
        p = gen.AXES[2 * ax] * float(g.integers(-N - 2, N + 3))
        d = gen.AXES[2 * ax] * g.choice([-1.0, 1.0])
        rs.append(e.launch(list(map(float, p)), list(map(float, d)), order=0, dt=int if g.random() < 0.4 else float))
    for _ in range(nev):
        e.run(rs[int(g.integers(2))], float(g.integers(1, 4 * N)), cap(g), order=shuffled(g, ops))
    return e


# ------------------------------------------------------- particular subjects
def plain_block(g, id, own):
    """the repository's own Block in a list (HBlock of world.py gives it a shape)"""
    import optics3d as O
    e = Episode(id, own, [])
    L, ops = 10.0, []
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d)
    b = O.Block(np.array([1.0, 2, 3]), np.array([0, 0, 1.0]), "circular_flat")
    e.guard(lambda: e.rays[0].run(5.0, [b]), "Ray.run() with a plain Block")
    return e


def absorption(g, id, own):
    """few optics that turn, many that absorb; several rays, several runs"""
    return free_history(g, id, own, kinds=ENDS * 2 + TURN, nev=9, faerie=0.3)


TURN = ["mirror-disc", "mirror-rect", "ideal-disc", "mirror-sphere", "refract-sphere", "mirror-solid", "grating-rect"]


def detectors(g, id, own):
    return free_history(g, id, own, kinds=["detector-rect"] * 4 + TURN + ["block-rect"], nev=10, faerie=0.25, rays=6, walls=0.7)


def reverse(g, id, own, kinds=REVERSIBLE):
    """there and back again"""
    L, ops = world(g, kinds, 6, 0.0)
    if g.random() < 0.4:
        ops += gen.box(g, L * 1.02, "mirror")
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    D = budget(g, L, 4)
    at = gen.attrs(g)                  # (of no importance without gratings)
    a = e.launch(p, d, **at)
    e.run(a, D)
    if e.dead or e.rays[0].blocked:
        return e
    ray = e.rays[0]
    b = e.launch(list(map(float, ray.position)), list(map(float, -ray.direction)), **at)
    e.run(b, D)
    e.relate("reverse", a, b, 1e-5 * max(1, L), own + ":light path is not reversible")
    return e


def long_run(g, id, own):
    """hundreds of interactions in a closed room"""
    L = float(g.choice(SCALES))
    ops = gen.scene(g, MIRRORS + REFRACT + ["ideal-disc", "grating-rect"], int(g.integers(1, 5)), L, "mirror")
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    r = e.launch(p, d, wl=532.0, order=int(g.choice([0, 0, 1, -1])))
    for _ in range(4):
        e.run(r, 1e9, int(g.integers(20, 60)))
    return e


def boundless(g, id, own):
    """no limit to the distance: the run ends where the ray is absorbed or has had its interactions"""
    L = float(g.choice(SCALES + [1e4, 1e5]))
    kinds = [k for k in MIRRORS + REFRACT + ["ideal-disc", "grating-rect", "detector-rect"] if "concave" not in k]
    ops = gen.scene(g, kinds, int(g.integers(0, 5)), L, "mirror")
    e = Episode(id, own, ops)
    for _ in range(2):
        p, d = gen.ray(g, ops, L)
        r = e.launch(p, d, wl=532.0, order=int(g.choice([0, 0, 1, -1])), type="faerie_fire" if g.random() < 0.2 else "normal")
        for _ in range(2):
            e.run(r, float("inf"), int(g.integers(0, 9)) if g.random() < 0.7 else int(g.integers(20, 80)))
        e.run(r, budget(g, L), cap(g))
    return e


def long_path(g, id, own):
    """one ray with hundreds or thousands of recorded points"""
    L = float(g.choice(SCALES))
    if g.random() < 0.5:
        ops = gen.box(g, L, "mirror")
    else:
        n = gen.rnd_dir(g)
        ops = [dict(act="mirror", k="disc", c=list(map(float, n * L * s)), n=list(map(float, -n * s)), R=float(3 * L)) for s in (1.0, -1.0)]
    e = Episode(id, own, ops)
    r = e.launch([0.0, 0.0, 0.0], list(map(float, gen.rnd_dir(g) if len(ops) > 2 else n)), **gen.attrs(g))
    left = int(10 ** g.uniform(2, 3.3))
    while left > 0 and not e.dead:
        k = int(min(left, 10 ** g.uniform(0, 3.3)))
        if g.random() < 0.4:
            e.run(r, float(2 * L * k))          # as many interactions as there are
        else:
            e.run(r, 1e9, k)
        left -= k
    return e


def marathon(g, id, own):
    """one run with more than a thousand interactions"""
    L = float(g.choice([1.0, 10.0]))
    ops = [dict(act="mirror", k="disc", c=[0.0, 0.0, L * s], n=[0.0, 0.0, 1.0], R=float(3 * L)) for s in (1.0, -1.0)]
    e = Episode(id, own, ops, ex=True)
    for limited in (False, True):
        k = int(g.integers(1001, 2000))
        r = e.launch([0.0, 0.0, 0.0], [0.0, 0.0, 1.0])
        e.run(r, 2 * L * k, k + int(g.integers(-1, 2)) if limited else None)
    return e


def brink(g, id, own, kinds=ALL):
    """budgets that end shortly before or behind a surface, at the first or a later leg"""
    L, ops = world(g, kinds, 4, 0.2)
    if kinds is not ALL and g.random() < 0.5:                # at the rim of a big optic, from afar
        o = gen.optic(g, str(g.choice(kinds)), L)
        n = np.array(o["n"]) / np.linalg.norm(o["n"]) if "n" in o else gen.rnd_dir(g)
        if o["k"] == "concave" and g.random() < 0.7:         # half a sphere
            o["R"] = float(2 * o["f"] * (1 - 10 ** g.uniform(-4, -1)))
        R = o["R"] if "R" in o else o["h"] / 2
        q = np.array(o["c"]) + gen.perp(g, n) * R * (1 - 10 ** g.uniform(-3.5, -0.3))
        d = (n * g.choice([-1, -1, 1]) + gen.rnd_dir(g) * 10 ** g.uniform(-4, -0.5)) if g.random() < 0.8 else gen.rnd_dir(g)
        ops, p, d = [o], list(map(float, q - d * R * g.uniform(1, 5))), list(map(float, d))
        L = max(L, R)
    else:
        p, d = gen.ray(g, ops, L)
    e = Episode(id, own, ops)
    at = gen.attrs(g)
    scout = e.launch(p, d, **at)
    e.run(scout, 10 * L, int(g.integers(1, 4)))
    if e.dead:
        return e
    h = e.rays[0].get_plot_repr()
    way = np.cumsum(np.linalg.norm(np.diff(h, axis=0), axis=1))
    for _ in range(2):
        if len(way) and way[-1] < 9.99 * L:
            D = float(way[int(g.integers(len(way)))] + g.choice([-1, 1]) * L * 10 ** g.uniform(-6, -0.5))
            r = e.launch(p, d, **at)
            e.run(r, D, cap(g) if g.random() < 0.2 else None)
            if g.random() < 0.5:
                e.run(r, L, 1)
    return e


def salvo(g, id, own):
    """hundreds of rays, one after the other, at a few detectors"""
    N = int(g.integers(2, 6))
    ops = []
    for _ in range(int(g.integers(1, 4))):
        o = lattice_optic(g, str(g.choice(["detector-rect", "detector-rect", "detector-rect", "mirror-rect", "block-disc"])), N)
        ops.append(dict(o, h=float(2 * N), w=float(2 * N)) if o["k"] == "rect" else o)
    e = Episode(id, own, ops, ex=True)
    rays = []
    for _ in range(int(10 ** g.uniform(1.5, 3.2))):
        o = ops[int(g.integers(len(ops)))]
        n = np.sign(np.array(o["n"])) * g.choice([-1.0, 1.0])
        q = np.array(o["c"]) + np.cross(n, [1.0, 1.0, 1.0]) * g.integers(-N, N + 1)
        rays.append((list(map(float, q - n * g.integers(1, 9))), list(map(float, n)), float(g.choice([450, 532, 680, 532.5])),
                     "faerie_fire" if g.random() < 0.1 else "normal"))
    def fire():
        for p, d, wl, ty in rays:
            O.Ray(np.array(p), np.array(d), wavelength=wl, type=ty).run(20.0, e.optics, max_interactions=1)
        return e.hits()
    got = e.guard(fire, "Ray.run()")
    if got is not None:
        e.event(e="salvo", D=num(20.0), rays=[dict(p=vec(p), d=vec(d), wl=num(wl), type=ty) for p, d, wl, ty in rays], hits=got)
    return e


def odd_launch(g, id, own):
    """launch directions of any length and numeric type"""
    L, ops = world(g, ["mirror-disc", "mirror-rect", "mirror-sphere", "ideal-disc", "refract-sphere"], 4, 0.6)
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    if g.random() < 0.3:
        d = [float(x) for x in g.integers(-9, 10, size=3)]
        if not any(d):
            d = [0.0, 0.0, 3.0]
        r = e.launch([float(round(x)) for x in p], d, dt=int)
    else:
        k = 10 ** g.uniform(-150, 150) if g.random() < 0.5 else gen.length(g)
        d = [float(x) * k for x in d]
        r = e.launch(p, d)
    e.run(r, budget(g, L), cap(g))
    e.run(r, budget(g, L), cap(g))
    return e


def rim(g, id, own):
    """rays aimed close to the edge of one flat optic, well inside or outside by decreasing margins"""
    L = float(g.choice(SCALES))
    kind = str(g.choice(["mirror-disc", "mirror-rect", "ideal-disc", "detector-rect", "grating-rect", "block-rect", "block-disc"]))
    o = gen.optic(g, kind, L)
    e = Episode(id, own, [o])
    n = np.array(o["n"]) / np.linalg.norm(o["n"])
    for _ in range(6):
        m = 10 ** g.uniform(-6, -1) * L * g.choice([-1, 1])
        if o["k"] == "disc":
            q = np.array(o["c"]) + gen.perp(g, n) * (o["R"] + m)
        else:
            t = np.array(o["tan"]) / np.linalg.norm(o["tan"])
            w = np.cross(n, t)
            if g.random() < 0.5:
                q = np.array(o["c"]) + t * (o["h"] / 2 + m) * g.choice([-1, 1]) + w * o["w"] / 2 * g.uniform(-0.99, 0.99)
            else:
                q = np.array(o["c"]) + w * (o["w"] / 2 + m) * g.choice([-1, 1]) + t * o["h"] / 2 * g.uniform(-0.99, 0.99)
        p = q + gen.rnd_dir(g) * L * g.uniform(0.2, 2)
        r = e.launch(list(map(float, p)), list(map(float, q - p)), order=0)
        e.run(r, 5 * L, 1)
    return e


def slivers(g, id, own, kinds=None):
    """optics a hair's breadth apart, far from or near the origin: very short legs, near ties"""
    L = float(g.choice(SCALES))
    kinds = kinds or ["mirror-disc", "mirror-rect", "mirror-sphere", "block-disc", "detector-rect", "mirror-solid", "ideal-disc", "mirror-concave",
                      "refract-sphere"]
    ops = gen.scene(g, kinds, int(g.integers(1, 3)), L, None)
    for o in list(ops):
        for _ in range(int(g.integers(1, 4))):
            q = gen.sliver(g, o, L)
            if gen.compatible(q, ops):
                ops.append(q)
    shift = gen.rnd_dir(g) * 10 ** g.uniform(0, 4) if g.random() < 0.3 else np.zeros(3)
    for o in ops:
        o["c"] = list(map(float, np.array(o["c"]) + shift))
        if "prims" in o:
            o["prims"] = [dict(p, c=list(map(float, np.array(p["c"]) + shift))) for p in o["prims"]]
    ops = [ops[k] for k in g.permutation(len(ops))]
    e = Episode(id, own, ops)
    for _ in range(2):
        o = ops[int(g.integers(len(ops)))]
        q = gen.target(g, o, L)
        d = gen.rnd_dir(g)
        back = L * g.uniform(0.2, 2) if g.random() < 0.5 else 10 ** g.uniform(-6.5, -1)
        if g.random() < 0.3 and "n" in o:
            d = np.array(o["n"]) / np.linalg.norm(o["n"]) * g.choice([-1.0, 1.0])
        r = e.launch(list(map(float, q - d * back)), list(map(float, d)), **gen.attrs(g))
        for _ in range(3):
            x = g.random()
            D = float(L * g.uniform(0.5, 5)) if x < 0.5 else float(back + 10 ** g.uniform(-6, -1) * g.choice([-1, 1])) if x < 0.7 else float(10 ** g.uniform(-6, 0))
            e.run(r, D, int(g.choice([1, 2, 3, 5, 8, 12])))       # (light can be caught between two mirrors)
    return e


def surface_point(g, o):
    """a point of an optic's surface (aperture), and the normal there"""
    c = np.array(o["c"])
    if o["k"] in ("disc", "rect", "concave"):
        n = np.array(o["n"]) / np.linalg.norm(o["n"])
        if o["k"] == "rect":
            t = np.array(o["tan"]) / np.linalg.norm(o["tan"])
            return c + t * o["h"] * g.uniform(-0.49, 0.49) + np.cross(n, t) * o["w"] * g.uniform(-0.49, 0.49), n
        return c + gen.perp(g, n) * (o["R"] * np.sqrt(g.uniform(0, 0.98)) if g.random() < 0.8 else min(1.0, o["R"]) * 10 ** g.uniform(-6, -0.5)), n
    p = o if o["k"] == "sphere" else o["prims"][int(g.integers(len(o["prims"])))]
    c = np.array(p["c"])
    if "a" in p:
        a = np.array(p["a"]) / np.linalg.norm(p["a"])
        n = gen.perp(g, a)
        return c + n * p["R"] + a * p["R"] * g.uniform(-1, 1), n
    n = gen.rnd_dir(g)
    return c + n * p["R"], n


def angle(g, o):
    """an incidence angle: along the normal, grazing, at the critical angle, by any small margin, or anything"""
    x = g.random()
    if x < 0.25:
        return 10 ** g.uniform(-8, -1)
    if x < 0.35:
        return np.pi / 2 - 10 ** g.uniform(-4.7, -0.3)
    if x < 0.7 and o["act"] == "refract" and o["index"] != 1.0:
        s = min(o["index"], 1 / o["index"]) * (1 + 10 ** g.uniform(-12 if g.random() < 0.4 else -7, -1) * g.choice([-1, 1]))
        return np.arcsin(min(1.0, s))
    return g.uniform(0, np.pi / 2 - 0.01)


def weak(g, id, own):
    """refractive bodies that hardly differ from their surroundings"""
    return incidence(g, id, own, REFRACT, change=lambda o: dict(o, index=float(1 + g.choice([-1, 1]) * 10 ** g.uniform(-7, -2))))


def unit(g, id, own):
    """focal lengths and radii of (nearly) one"""
    def one(o):
        x = float(g.choice([1.0, 1.0, 1 + 1e-6, 1 - 1e-9]))
        return dict(o, f=x * float(g.choice([-1, 1])), R=5.0) if "f" in o and o["k"] == "disc" else dict(o, R=x) if o["k"] == "sphere" else o
    return incidence(g, id, own, IDEAL + ["mirror-sphere", "refract-sphere"], change=one)


def incidence(g, id, own, kinds, n=6, other=0.2, change=lambda o: o):
    """rays that arrive at one optic at chosen angles"""
    L = float(g.choice(SCALES))
    ops = [change(o) for o in gen.scene(g, kinds, 1 if g.random() > other else 2, L, None)]
    e = Episode(id, own, ops)
    for _ in range(n):
        o = ops[int(g.integers(len(ops)))]
        q, nn = surface_point(g, o)
        a = angle(g, o)
        u = gen.perp(g, nn)
        if "tan" in o and g.random() < 0.3:               # across or along the grooves
            u = np.array(o["tan"]) / np.linalg.norm(o["tan"])
            u = np.cross(nn, u) if g.random() < 0.5 else u
        d = nn * np.cos(a) * g.choice([-1, 1]) + u * np.sin(a)
        far = L
        if o["k"] == "sphere" and np.dot(d, nn) > 0:      # from inside the ball
            far = 2 * o["R"] * np.cos(a)
        p = q - d * far * g.uniform(0.05, 0.95)
        at = gen.attrs(g)
        if o["act"] == "grating" and at["order"] and g.random() < 0.4:      # at the limit of an order's propagation
            s = np.linalg.norm(d - np.dot(d, np.array(o["tan"])) * np.array(o["tan"]) / np.dot(o["tan"], o["tan"]))
            sa = abs(np.dot(d, np.cross(nn, np.array(o["tan"]) / np.linalg.norm(o["tan"])))) / s
            wl = (sa + np.sign(at["order"])) / (o["G"] * 1e-6 * at["order"]) * (1 + 10 ** g.uniform(-7, -1) * g.choice([-1, 1]))
            if 1 < wl < 1e5:
                at["wl"] = float(wl)
        r = e.launch(list(map(float, p)), list(map(float, d * gen.length(g))), **at)
        e.run(r, 10 * L, 1)
        if g.random() < 0.3:
            e.run(r, 10 * L, 2)
    return e


def instruments(g, id, own):
    """whole instruments, a bundle of rays through each; some rays in several runs, or one interaction at a time"""
    ops, rays, D = instrument(g, own)
    e = Episode(id, own, [ops[k] for k in g.permutation(len(ops))])
    for p, d, at in rays:
        if e.dead:
            break
        if g.random() < 0.1:
            at = gen.attrs(g)
        r = e.launch(p, d, type="faerie_fire" if g.random() < 0.04 else "normal", **at)
        x = g.random()
        if x < 0.5:
            e.run(r, D)
        elif x < 0.75:
            for _ in range(8):
                if not e.dead and not e.rays[-1].blocked:
                    e.run(r, D, 1)
        else:
            for _ in range(3):
                e.run(r, D * g.uniform(0.1, 0.6))
    return e


def instrument_back(g, id, own):
    """there and back again through an instrument"""
    ops, rays, D = instrument(g, own)
    ops = [o for o in ops if o["act"] not in ("detector", "block")]
    e = Episode(id, own, ops)
    for p, d, at in rays[:3]:
        if e.dead:
            break
        a = e.launch(p, d, **at)
        D1 = D * g.uniform(0.3, 1)
        e.run(a, D1)
        if e.dead:
            break
        ray = e.rays[-1]
        b = e.launch(list(map(float, ray.position)), list(map(float, -ray.direction)), **at)
        e.run(b, D1)
        e.relate("reverse", a, b, 1e-5 * max(1, D), own + ":light path is not reversible")
    return e


def direct(g, id, own):
    """Ray.reflect() and Ray.refract() called by the user, with normals of any length (mirrors, gratings) and orientation"""
    L = float(g.choice(SCALES))
    how = {"C09": "mirror", "C11": "snell"}.get(own, "optic")
    o = gen.optic(g, "grating-rect" if own == "C13" else str(g.choice(IDEAL)), L)
    e = Episode(id, own, [o])
    for _ in range(8):
        if e.dead:
            break
        pt, nn = surface_point(g, o) if how == "optic" else (g.uniform(-L, L, size=3), gen.normal(g) if g.random() < 0.5 else gen.rnd_dir(g))
        nn = nn / np.linalg.norm(nn)
        e1, e2 = (float(10 ** g.uniform(-0.5, 0.5)) if g.random() < 0.7 else 1.0 for _ in range(2))
        a = angle(g, dict(act="refract" if how == "snell" else "", index=e2 / e1))
        d = (nn * np.cos(a) * g.choice([-1, 1]) + gen.perp(g, nn) * np.sin(a)) * gen.length(g)
        k = 1.0 if g.random() < 0.3 or how == "snell" else 1 + 10 ** g.uniform(-7, -2) * g.choice([-1, 1]) if g.random() < 0.6 else 10 ** g.uniform(-3, 3)
        n = nn * k * (1 if g.random() < 0.5 else -1)
        at = gen.attrs(g)

        def call():
            ray = O.Ray(np.array(pt), np.array(d), wavelength=at["wl"], order=at["order"])
            if how == "mirror":
                ray.reflect(reflect_type="specular_flat", normal=n, **(dict(intersection_pt=np.array(pt)) if g.random() < 0.5 else {}))
            elif how == "snell":
                ray.refract(refract_type="snells_law", normal=n, eta1=e1, eta2=e2, intersection_pt=np.array(pt))
            elif o["act"] == "grating" and (g.random() < 0.5 or at["order"] == 0):
                e.optics[0].do_intersect(ray, np.array(pt), n, None)
            elif o["act"] == "grating":
                ray.reflect(reflect_type="grating", normal=n, optic=e.optics[0], intersection_pt=np.array(pt))
            else:
                kind = {"ideal": "thin_lens", "collimate": "ideal_collimate", "focus": "ideal_focus"}[o["act"]]
                ray.refract(refract_type=kind, normal=n, optic=e.optics[0], intersection_pt=np.array(pt))
            return ray
        ray = e.guard(call, "a direct call")
        if e.dead:
            break
        fin = is_finite(ray.direction, ray.position)
        e.event(e="turn", how=how, k=1, d=scaled(d), n=vec(n), eta1=num(e1), eta2=num(e2), pt=vec(pt), order=num(at["order"]), wl=num(at["wl"]),
                fin=fin, out=vec(ray.direction) if fin else vec(n), blocked=bool(ray.blocked),
                still=fin and bool(np.array_equal(ray.position, pt)) and len(ray.point_history) == 1)
    return e


def skim(g, id, own):
    """rays that enter large balls and lens-like solids far from the origin almost along their surface"""
    L = float(g.choice([100.0, 1000.0, 1000.0]))
    R, c = L * g.uniform(0.1, 0.5), g.uniform(-L, L, size=3)
    n = gen.rnd_dir(g)
    ball = lambda x, r: dict(shape="sphere", c=list(map(float, c + n * x)), R=float(r))
    leaf = lambda i: dict(op="leaf", i=i)
    two = g.random() < 0.5
    o = dict(act="refract", k="solid", c=list(map(float, c)), index=float(g.choice([1.5, 1.33, 2.4, 0.7])),
             prims=[ball(0, R)] + ([ball(0.3 * R, 1.4 * R)] if two else []),
             tree=dict(op="intersect", l=leaf(1), r=leaf(2)) if two else leaf(1))
    e = Episode(id, own, [o])
    for _ in range(4):
        nn = n + gen.rnd_dir(g) * 0.5                  # where the small ball bounds the solid
        nn /= np.linalg.norm(nn)
        a = 10 ** g.uniform(-5, -2)
        u = gen.perp(g, nn)
        d = u * np.cos(a) - nn * np.sin(a)
        r = e.launch(list(map(float, c + nn * R - d * R * g.uniform(0.05, 0.5))), list(map(float, d)), **gen.attrs(g))
        e.run(r, 10 * L, 1)
        if g.random() < 0.5:
            e.run(r, 10 * L, 2)
    return e


def thin(g, id, own, acts=("refract",)):
    """solids so thin (lenses, shells) that a ray leaves them soon after it entered"""
    L = float(g.choice(SCALES[:3]))
    R, S = L * g.uniform(0.2, 1, size=2)
    t = 10 ** g.uniform(-5.5, -1) * min(R, S)
    n = gen.rnd_dir(g)
    c = g.uniform(-L, L, size=3)
    ball = lambda x, r: dict(shape="sphere", c=list(map(float, c + n * x)), R=float(r), useR=bool(g.random() < 0.5))
    kind = int(g.integers(3))
    leaf = lambda i: dict(op="leaf", i=i)
    if kind == 0:                                     # a lens
        prims, op, at = [ball(0, R), ball(R + S - t, S)], "intersect", R - t / 2
        wide = np.sqrt(t * min(R, S))
    elif kind == 1:                                   # a shell
        prims, op, at = [ball(0, R), ball(0, R - t)], "difference", R
        wide = 0.9 * R
    else:                                             # a shell thinner on one side
        prims, op, at = [ball(0, R), ball(0.5 * R - t, 0.5 * R)], "difference", R
        wide = 0.5 * R
    o = dict(act=str(g.choice(acts)), k="solid", c=list(map(float, c)), index=float(g.choice([1.5, 1.33, 2.4, 0.7])), prims=prims,
             tree=dict(op=op, l=leaf(1), r=leaf(2)))
    e = Episode(id, own, [o])
    for _ in range(4):
        q = c + n * at + gen.perp(g, n) * wide * g.uniform(0, 1) * 10 ** g.uniform(-2, 0)
        d = (n * g.choice([-1, 1]) + gen.rnd_dir(g) * g.uniform(0, 0.8))
        d /= np.linalg.norm(d)
        p = q - d * L * g.uniform(0.3, 3) if g.random() < 0.8 else c + gen.rnd_dir(g) * R * 0.3
        r = e.launch(list(map(float, p)), list(map(float, (q - p))), **gen.attrs(g))
        for _ in range(4):
            e.run(r, 10 * L, 1)
    return e


def nested(g, id, own):
    """a hollow refractive solid with other optics in the hollow, in any list order"""
    L = float(g.choice(SCALES[:3]))
    c = g.uniform(-L, L, size=3)
    R = L * g.uniform(0.5, 1)
    r = R * g.uniform(0.3, 0.95)
    ball = lambda q, x: dict(shape="sphere", c=list(map(float, q)), R=float(x), useR=bool(g.random() < 0.5))
    leaf = lambda i: dict(op="leaf", i=i)
    glass = lambda: float(g.choice([1.5, 1.33, 2.4, 0.7, 1.0]))
    off = gen.rnd_dir(g) * (R - r) * g.uniform(0, 0.9)
    ops = [dict(act="refract", k="solid", c=list(map(float, c)), index=glass(), prims=[ball(c, R), ball(c + off, r)],
                tree=dict(op="difference", l=leaf(1), r=leaf(2)))]
    inner = r * g.uniform(0.2, 0.8)
    q = c + off + gen.rnd_dir(g) * (r - inner) * g.uniform(0, 0.9)
    x = g.random()
    if x < 0.4:
        ops.append(dict(act="refract", k="sphere", c=list(map(float, q)), R=float(inner), index=glass()))
    elif x < 0.7:
        ops.append(dict(act="refract", k="solid", c=list(map(float, q)), index=glass(), prims=[ball(q, inner), ball(q, inner * 0.6)],
                        tree=dict(op="difference", l=leaf(1), r=leaf(2))))
    elif x < 0.85:
        ops.append(dict(act="mirror", k="sphere", c=list(map(float, q)), R=float(inner)))
    if g.random() < 0.4:
        ops.append(dict(act="refract", k="sphere", c=list(map(float, c + gen.rnd_dir(g) * R * 2.2)), R=float(R * g.uniform(0.3, 1.1)), index=glass()))
    if g.random() < 0.3:
        ops.append(dict(act="window", k="ignored", c=list(map(float, c)), n=[0.0, 0.0, 1.0]))
    ops = [ops[k] for k in g.permutation(len(ops))]
    e = Episode(id, own, ops)
    for _ in range(2):
        p = c + gen.rnd_dir(g) * L * (g.uniform(0, 1) if g.random() < 0.4 else g.uniform(1.2, 3))
        d = c + gen.rnd_dir(g) * R * g.uniform(0, 1) - p
        a = e.launch(list(map(float, p)), list(map(float, d)), **gen.attrs(g))
        for _ in range(8):
            e.run(a, 10 * L, 1, order=shuffled(g, ops) if g.random() < 0.3 else None)
        e.run(a, 3 * L, 9)
    return e


def volleys(g, id, own):
    """the same ray fired again and again, and its neighbours"""
    L, ops = world(g, ["detector-rect", "detector-rect", "mirror-rect", "ideal-disc", "mirror-sphere"], 5, 0.5)
    if g.random() < 0.5:
        ops += [gen.optic(g, "detector-rect", L)]
    e = Episode(id, own, ops)
    p, d = gen.ray(g, ops, L)
    at = gen.attrs(g)
    D, c = budget(g, L), cap(g)
    for _ in range(int(g.integers(2, 7))):
        x = g.random()
        if x < 0.3:
            p = list(map(float, np.array(p) + gen.rnd_dir(g) * L * 10 ** g.uniform(-9, -1)))
        elif x < 0.5:
            at = dict(at, **[dict(wl=float(g.choice([450, 680]))), dict(order=int(g.integers(-1, 2))), dict(type="faerie_fire"), dict(type="normal")][int(g.integers(4))])
        r = e.launch(p, d, **at)
        for _ in range(int(g.integers(1, 4))):
            e.run(r, D, c, order=shuffled(g, ops) if g.random() < 0.2 else None)
    return e


def of(f, kinds, **kw):
    return lambda g, id, own: f(g, id, own, kinds=kinds, **kw)


def of2(f, **kw):
    return lambda g, id, own: f(g, id, own, **kw)


def register(suite):
    suite("C01", "any-history", free_history, 700, 8000)
    suite("C01", "whole-run", whole, 500, 6000)
    suite("C01", "slivers", slivers, 400, 5000)
    suite("C01", "long-path", long_path, 8, 80)
    suite("C01", "scales", far_and_near, 200, 3000)
    suite("C02", "long-path", long_path, 4, 40)
    suite("C04", "long-path", long_path, 4, 40)
    suite("C02", "marathon", marathon, 3, 20)
    suite("C01", "marathon", marathon, 2, 20)
    suite("C02", "brink", brink, 300, 4000)
    suite("C03", "brink", brink, 400, 5000)
    suite("C03", "brink-curved", of(brink, CURVED), 400, 4000)
    suite("C10", "brink", of(brink, ["mirror-concave", "mirror-concave", "mirror-sphere", "dmd-concave"]), 200, 3000)
    suite("C14", "salvo", salvo, 40, 400)
    for c, kinds in dict(C05=FLATS, C06=["mirror-sphere", "refract-sphere", "block-sphere"], C08=SOLIDS, C09=MIRRORS, C10=["mirror-concave", "mirror-sphere", "dmd-concave"],
                         C11=REFRACT, C12=IDEAL, C13=["grating-rect"]).items():
        suite(c, "scales", of(far_and_near, kinds), 100, 1500)
        suite(c, "aged", of(aged, kinds), 16, 300)
    suite("C03", "crowd", crowd, 40, 600)
    suite("C02", "split", split, 500, 6000)
    suite("C02", "slivers", slivers, 300, 4000)
    suite("C02", "any-history", free_history, 400, 5000)
    suite("C02", "lattice", lattice, 800, 10000)
    suite("C02", "close", of2(lattice, close=0.6), 300, 4000)
    suite("C03", "close", of2(lattice, close=0.6), 300, 4000)
    suite("C02", "axial", axial, 500, 6000)
    suite("C03", "whole-run", whole, 500, 6000)
    suite("C03", "slivers", slivers, 600, 8000)
    suite("C03", "orders", orders, 400, 5000)
    suite("C03", "lattice", lattice, 800, 10000)
    suite("C03", "axial", axial, 500, 6000)
    suite("C03", "crowded", of(stepping, ALL, nmax=20), 200, 3000)
    suite("C03", "changing", changing, 400, 5000)
    suite("C03", "scales", far_and_near, 150, 2000)
    suite("C04", "absorption", absorption, 700, 8000)
    suite("C04", "lattice", of(lattice, EXACT + ["block-disc", "block-rect", "detector-rect"], faerie=0.3, nev=8), 600, 8000)
    suite("C04", "slivers", of(slivers, ["block-disc", "detector-rect", "block-rect", "mirror-disc", "block-sphere"]), 200, 3000)
    suite("C03", "stack", stack, 400, 5000)
    suite("C14", "stack", stack, 150, 2000)
    suite("C04", "volleys", volleys, 200, 3000)
    suite("C04", "any-history", of(free_history, ALL, faerie=0.3, nev=9), 300, 4000)
    suite("C04", "plain-block", plain_block, 1, 1)
    suite("C05", "aimed", of(aimed, FLATS), 700, 8000)
    suite("C05", "slivers", of(slivers, FLATS), 300, 4000)
    suite("C05", "rim", rim, 600, 8000)
    suite("C05", "lattice", lattice, 600, 8000)
    suite("C06", "aimed", of(aimed, ["mirror-sphere", "refract-sphere", "block-sphere"]), 400, 5000)
    suite("C08", "aimed", of(aimed, SOLIDS), 700, 9000)
    suite("C06", "slivers", of(slivers, ["mirror-sphere", "refract-sphere", "block-sphere"]), 200, 3000)
    suite("C08", "incidence", of(incidence, SOLIDS), 200, 3000)
    suite("C08", "slivers", of(slivers, ["mirror-solid", "refract-solid"]), 200, 3000)
    suite("C08", "axial", of(axial, ["mirror-solid", "refract-solid", "mirror-solid", "mirror-disc"]), 500, 6000)
    suite("C08", "thin", of2(thin, acts=("refract", "mirror")), 200, 3000)
    suite("C08", "stepping", of(stepping, SOLIDS, steps=6), 300, 4000)
    suite("C09", "aimed", of(aimed, MIRRORS), 600, 8000)
    suite("C09", "incidence", of(incidence, MIRRORS + REFRACT), 500, 5000)
    for c in ("C09", "C11", "C12", "C13"):
        suite(c, "direct", direct, 150, 2500)
    suite("C09", "stepping", of(stepping, MIRRORS + REFRACT), 400, 5000)
    suite("C10", "aimed", of(aimed, ["mirror-concave", "mirror-concave", "mirror-sphere", "dmd-concave"]), 900, 10000)
    suite("C10", "incidence", of(incidence, ["mirror-concave", "mirror-sphere", "dmd-concave"]), 400, 4000)
    suite("C10", "stepping", of(stepping, ["mirror-concave", "mirror-sphere", "dmd-concave", "mirror-rect"]), 300, 4000)
    suite("C10", "axial", of(axial, ["mirror-concave", "mirror-sphere", "mirror-concave", "mirror-disc"]), 300, 4000)
    suite("C11", "aimed", of(aimed, REFRACT), 600, 8000)
    suite("C11", "incidence", of(incidence, REFRACT), 700, 7000)
    suite("C11", "skim", skim, 200, 3000)
    suite("C11", "nested", nested, 300, 4000)
    suite("C11", "slivers", of(slivers, ["refract-sphere", "refract-solid", "mirror-disc"]), 150, 2000)
    suite("C11", "thin", thin, 300, 4000)
    suite("C11", "stepping", of(stepping, REFRACT + ["refract-sphere", "mirror-rect", "annotation-ignored"], steps=10), 500, 6000)
    suite("C12", "aimed", of(aimed, IDEAL), 700, 8000)
    suite("C12", "incidence", of(incidence, IDEAL), 600, 6000)
    suite("C12", "unit", unit, 200, 2000)
    suite("C16", "unit", unit, 300, 3000)
    suite("C12", "stepping", of(stepping, IDEAL + ["mirror-rect"]), 300, 4000)
    suite("C12", "axial", of(axial, ["ideal-disc", "focus-disc", "collimate-disc", "ideal-disc", "mirror-disc"]), 200, 3000)
    suite("C13", "aimed", of(aimed, ["grating-rect"]), 900, 10000)
    suite("C13", "incidence", of(incidence, ["grating-rect"]), 500, 5000)
    suite("C13", "stepping", of(stepping, ["grating-rect", "grating-rect", "mirror-rect"]), 300, 4000)
    suite("C14", "detectors", detectors, 600, 8000)
    suite("C14", "volleys", volleys, 600, 8000)
    suite("C14", "slivers", of(slivers, ["detector-rect", "detector-rect", "mirror-rect"]), 200, 3000)
    suite("C14", "lattice", of(lattice, ["detector-rect", "detector-rect", "mirror-rect", "block-rect"], rays=5, nev=10, faerie=0.3), 500, 6000)
    for c in ("C01", "C02", "C03", "C04", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16"):
        suite(c, "instruments", instruments, 70, 1200)
    suite("C27", "instruments", instrument_back, 120, 2000)
    suite("C11", "weak", weak, 150, 2000)
    suite("C16", "weak", weak, 250, 3000)
    suite("C16", "incidence", of(incidence, REFRACT + IDEAL + MIRRORS + ["grating-rect"]), 300, 4000)
    suite("C16", "long-run", long_run, 60, 800)
    for p in ("C02", "C04"):
        suite(p, "boundless", boundless, 150, 2000)
    suite("C16", "launch", odd_launch, 500, 6000)
    suite("C16", "any-history", free_history, 300, 4000)
    suite("C27", "reverse", reverse, 900, 10000)
