"""Construction (C25), what tracing leaves untouched (C15), drawing (C26)."""
import hashlib
import weakref
import numpy as np
import gen
import general
import general_optics as G
import optics3d as O
import pristine
import Shapes.shapes as S
import world as W
from enc import num, vec, is_finite
from record import Episode
from tracer_suites import ALL, SOLIDS, REFRACT, SCALES, world, budget, cap, shuffled
from vector_suites import scaled_vec


# ------------------------------------------------------------- construction
def attempt(e, f):
    try:
        return True, f()
    except Exception:
        return False, None


def opt(x):
    return [] if x is None else [num(x)]


def rounds(g, id, own):
    e = Episode(id, own, [])
    for _ in range(8):
        ex = bool(g.random() < 0.6)
        R = float(g.choice([0.5, 1, 2, 3, 10, 0.25, 1000])) if ex else float(10 ** g.uniform(-3, 4))
        if ex and g.random() < 0.1:
            R = 0.0
        D = 2 * R if R or g.random() < 0.5 else float(g.choice([1, 2, 7]))
        x = g.random()
        if x < 0.15:
            R = D = None
        elif x < 0.35:
            R = None
        elif x < 0.55:
            D = None
        elif x < 0.7:
            pass
        elif x < 0.8:
            D = R
        elif x < 0.9:
            D = D * g.choice([0.5, 2, 1.5, -1]) + g.choice([0, 1.0])
        else:
            ex = False
            D = D * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-13, -1))
        R, D = (None if v is None else int(v) if v == int(v) and g.random() < 0.3 else float(v) for v in (R, D))
        c, n = g.uniform(-5, 5, size=3), gen.normal(g)
        k = int(g.integers(6))
        if k >= 3 and R is not None:
            k = k % 3
        f = [lambda: S.Sphere(c, R=R, D=D), lambda: S.Circle(c, n, R=R, D=D), lambda: S.InfiniteCylinder(c, n, R=R, D=D),
             lambda: O.Mirror(c, normal=n, D=D).surfaces[0], lambda: O.Lens(c, normal=n, D=D, f=1.0, type="ideal").surfaces[0],
             lambda: O.Lens(c, shape="spherical", D=D).surfaces[0]][k]
        ok, s = attempt(e, f)
        got = [getattr(s, "R", None), getattr(s, "D", None)] if ok else [0, 0]
        good = is_finite(got)
        e.event(e="round", R=opt(R), D=opt(D), accepted=ok, gotR=num(got[0]) if good else [-1], gotD=num(got[1]) if good else [-1], ex=ex)
    return e


def rectangles(g, id, own):
    e = Episode(id, own, [])
    for _ in range(8):
        n = gen.normal(g)
        u = n / np.linalg.norm(n)
        t = gen.perp(g, u) * (1.0 if g.random() < 0.5 else g.uniform(0.1, 9))
        x = g.random()
        if x < 0.25:
            t = t + u * np.linalg.norm(t) * g.choice([-1, 1]) * 10 ** g.uniform(-5, 1)
        elif x < 0.3:
            t = n.copy()
        elif x < 0.35:
            t = t + u * np.linalg.norm(t) * 1e-12
        h, w = float(10 ** g.uniform(-2, 3)), float(10 ** g.uniform(-2, 3))
        x = g.random()
        if x < 0.1:
            h = None
        elif x < 0.2:
            w = None
        elif x < 0.3:
            h = -h
        elif x < 0.4:
            w = -w
        elif x < 0.5:
            h, w = g.choice([0.0, 1.0]), g.choice([0.0, 2.0])
        elif x < 0.55:
            h, w = int(g.integers(-1, 3)), int(g.integers(-1, 3))
        c = g.uniform(-5, 5, size=3)
        f = [lambda: S.Rectangle(c, n, t, h=h, w=w), lambda: O.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w),
             lambda: O.Grating(c, n, t, h=h, w=w, G=600), lambda: O.Detector(c, n, t, h=h, w=w)][int(g.integers(4))]
        ok, _s = attempt(e, f)
        e.event(e="rectangle", n=scaled_vec(n), tan=scaled_vec(t), h=opt(h), w=opt(w), accepted=ok)
    return e


WORDS = ["circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical", "spherical_biconvex", "spherical",
         "reflect", "refract", "thin_lens", "ideal_collimate", "ideal_focus", "snells_law", "specular_flat", "grating"]
WRONG = ["", "flat", "circular", "Reflect", "refracts", "mirror", "ideal", "normal", "spherical_flat", "circular_flat ", "concave", "snell",
         "specular", "none", "thin lens", "absorb", "rectangular", "planar", "parabolic", "dmd", "blazed", "rectangular_flats", "cylindrical"]


def one_name(g, e, kind, name):
    c, n, t = g.uniform(-3, 3, size=3), np.array([0, 0, 1.0]), np.array([1.0, 0, 0])

    def ray():
        return O.Ray(c + np.array([0.1, 0, 5]), np.array([0, 0, -1.0]))

    def lens():
        return O.Lens(c, normal=n, D=4.0, f=3.0, type="ideal")

    def solid():
        o = O.Compound(G.BinaryTree(S.Sphere(c, R=2.0)), surface_behavior=name, index=1.5)
        ray().run(20.0, [o])

    def refraction():
        r = ray()
        r.refract(refract_type=name, normal=n, optic=lens(), intersection_pt=c + np.array([0.1, 0, 0]), eta1=1.0, eta2=1.5)

    def reflection():
        r = O.Ray(c + np.array([0.1, 0, 5]), np.array([0, 0.1, -1.0]), order=1)
        r.reflect(reflect_type=name, normal=n, optic=O.Grating(c, n, t, h=4.0, w=4.0, G=300), intersection_pt=c)
    f = {"mirror shape": lambda: O.Mirror(c, shape=name, normal=n, tangent=t, D=2.0, h=2.0, w=2.0, f=4.0),
         "lens shape": lambda: O.Lens(c, shape=name, normal=n, tangent=t, D=2.0, h=2.0, w=2.0, f=4.0, type="ideal"),
         "grating shape": lambda: O.Grating(c, n, t, shape=name, h=2.0, w=2.0, G=600),
         "detector shape": lambda: O.Detector(c, n, t, shape=name, h=2.0, w=2.0),
         "solid behaviour": solid, "refraction": refraction, "reflection": reflection}[kind]
    ok, _s = attempt(e, f)
    e.event(e="name", kind=kind, name=name, accepted=ok)


KNOWN = {"mirror shape": WORDS[:4], "lens shape": WORDS[4:6], "grating shape": WORDS[1:2], "detector shape": WORDS[1:2],
         "solid behaviour": WORDS[6:8], "refraction": WORDS[8:12], "reflection": WORDS[12:]}
KINDS = ["mirror shape", "lens shape", "grating shape", "detector shape", "solid behaviour", "refraction", "reflection"]


def names(g, id, own):
    e = Episode(id, own, [])
    for _ in range(10):
        x = g.random()
        name = str(g.choice(WORDS)) if x < 0.5 else str(g.choice(WRONG))
        kind = str(g.choice(KINDS))
        if x > 0.7:                                       # a known name with a slip
            name = list(str(g.choice(KNOWN[kind])))
            k = int(g.integers(len(name)))
            y = g.random()
            if y < 0.1:
                name = list(str(g.choice(["", " ", "x", "non_"]))) + name
            elif y < 0.15:
                name = name[:k] if g.random() < 0.5 else name[k + 1:]
            elif y < 0.25:
                name += list(str(g.choice(["ive", "ing", "_2", "or", "ed", "\n", "_spherical", "_flat", "ly"])))
            elif y < 0.4:
                del name[k]
            elif y < 0.6:
                name[k] = str(g.choice(list("abcdefgh_ ")))
            elif y < 0.8:
                name[k] = name[k].upper()
            else:
                name.append(str(g.choice(list("s _x"))))
            name = "".join(name)
        one_name(g, e, kind, name)
    return e


# ------------------------------------------------------------------- frames
def freeze(x, depth=0):
    """a value as text: numbers and arrays to the last bit, objects by their public attributes"""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return repr(x)
    if isinstance(x, (float, np.floating, np.integer, np.bool_)):
        return "%r" % x.item() if hasattr(x, "item") else repr(x)
    if isinstance(x, np.ndarray):
        return "%s%s%s" % (x.dtype, x.shape, x.tobytes().hex())
    if depth > 40:
        return "..."
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(freeze(v, depth + 1) for v in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(freeze(k) + ":" + freeze(x[k], depth + 1) for k in x) + "}"
    if callable(x) and not hasattr(x, "__dict__"):
        return "function"
    return type(x).__name__ + "(" + ",".join(k + "=" + freeze(v, depth + 1) for k, v in sorted(public(x).items())) + ")"


BORN = weakref.WeakKeyDictionary()       # object -> the attributes it had when it was new


def public(x):
    born = BORN.get(x) if type(x).__hash__ is object.__hash__ and type(x).__weakrefoffset__ else None
    return {k: v for k, v in getattr(x, "__dict__", {}).items() if not k.startswith("_") and (born is None or k in born)}


def born(x):
    """x is new: attributes that it or its parts get later are notes of the code, not its state"""
    if isinstance(x, (list, tuple)):
        for v in x:
            born(v)
    elif hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__hash__ is object.__hash__ and type(x).__weakrefoffset__ and x not in BORN:
        BORN[x] = frozenset(vars(x))
        for v in vars(x).values():
            born(v)


def short(s):
    return hashlib.blake2b(s.encode(), digest_size=6).hexdigest()


class Snapshot:
    """public attributes of objects, and arrays, at some moment; later compared with what they are then"""
    def __init__(self, things):
        """things: [(name, object or array, attributes that may change)]"""
        self.things = things
        self.seen = [self.read(x, None) for _, x, _ in things]

    @staticmethod
    def read(x, keys):
        if isinstance(x, (np.ndarray, list)):
            return {"": short(freeze(x))}
        p = public(x)
        return {k: short(freeze(p[k])) if k in p else "gone" for k in (keys if keys is not None else sorted(p))}

    def items(self):
        out = []
        for (name, x, may), before in zip(self.things, self.seen):
            after = self.read(x, list(before) if "" not in before else None)
            for k in before:
                if before[k] != after[k] or k in may:
                    out.append(dict(name=(name + " " + k).strip(), before=before[k], after=after[k], may=k in may))
        return out


def kind_of(x):
    return type(x).__name__


def watched(e, arrays, ray=None, running=False):
    """everything around that a call must leave alone; the traced ray itself is left out"""
    t = [("of a " + kind_of(o), o, {"hit_data"} if running and isinstance(o, O.Detector) else set()) for o in e.optics]
    t += [("of another ray", r, set()) for r in e.rays if r is not ray]
    t += [("in an array of the caller", a, set()) for a in arrays]
    return t


def frame(e, prop, what, snap):
    e.event(e="frame", prop=prop, what=what, items=snap.items())


def build_watched(g, e, ops):
    """builds the optics from arrays that are kept and compared; -> the arrays"""
    arrays = []
    real = W.arr

    def arr(v, dt=float):
        a = real(v, dt)
        arrays.append(a)
        return a
    W.arr = arr
    try:
        e.guard(lambda: e.optics.extend(W.build(o) for o in ops), "building the optics")
    finally:
        W.arr = real
    born(e.optics)
    given = [np.array(v, dtype=float) for o in ops for v in ()]
    return arrays + given


def launch(g, e, p, d, arrays, **at):
    pa, da = np.array(p, dtype=float), np.array(d, dtype=float)
    arrays += [pa, da]
    s = Snapshot(watched(e, arrays))
    ray = e.guard(lambda: O.Ray(pa, da, wavelength=at.get("wl", 532), order=at.get("order", 0), type=at.get("type", "normal"),
                                print_trajectory=bool(g.random() < 0.2)), "Ray()")
    if ray is not None:
        frame(e, "C15", "launching a ray", s)
        born(ray)
        e.rays.append(ray)
    return ray


def activity(g, e, L, ops, arrays):
    """one call of a user: a run, a flight, or a query"""
    x = g.random()
    ray = e.rays[int(g.integers(len(e.rays)))]
    if x < 0.5:
        lst = [e.optics[k - 1] for k in shuffled(g, ops)]
        if g.random() < 0.3:
            lst = lst[: max(1, len(lst) // 2)]
        was = list(lst)
        D = budget(g, L)
        if g.random() < 0.25:                               # the distance as an array of one number
            D = np.array(D) if g.random() < 0.5 else np.array([D])
            arrays.append(D)
        s = Snapshot(watched(e, arrays, ray, running=True))
        c = cap(g)
        e.guard(lambda: ray.run(D, lst, **({} if c is None else dict(max_interactions=c))), "Ray.run()")
        if not e.dead:
            frame(e, "C15", "a run", s)
            e.event(e="untouched", prop="C15", before=["same list"], after=["same list" if len(was) == len(lst) and all(a is b for a, b in zip(was, lst)) else "changed list"])
        return
    s = Snapshot(watched(e, arrays, ray if x < 0.58 else None))
    if x < 0.58:
        what = "a flight"
        D = float(L * g.uniform(-1, 1))
        if g.random() < 0.25:
            D = np.array(D) if g.random() < 0.5 else np.array([D])
            arrays.append(D)
            s = Snapshot(watched(e, arrays, ray))
        e.guard(lambda: ray.fly(D), "Ray.fly()")
    elif x < 0.7:
        what = "an intersection test"
        vis = [o for o, d in zip(e.optics, ops) if d["k"] != "ignored"]
        if vis:
            o = vis[int(g.integers(len(vis)))]
            e.guard(lambda: o.test_intersect(ray), "test_intersect()")
    elif x < 0.8:
        what = "a membership query"
        pt = np.array(gen.target(g, ops[int(g.integers(len(ops)))], L), dtype=float)
        arrays.append(pt)
        s = Snapshot(watched(e, arrays))
        e.guard(lambda: O.get_index_at_point(e.optics, pt), "get_index_at_point()")
    elif x < 0.87:
        what = "printing"
        e.guard(lambda: [repr(o) for o in e.optics] + [repr(ray)], "repr()")
    elif x < 0.93:
        what = "reading a trajectory"
        e.guard(lambda: ray.get_plot_repr(), "get_plot_repr()")
    else:
        what = "a membership test of a solid"
        sol = [o for o in e.optics if isinstance(o, O.Compound)]
        if sol:
            pt = g.uniform(-L, L, size=3)
            e.guard(lambda: G.test_tree_point(sol[0].tree, pt), "test_tree_point()")
    if not e.dead:
        frame(e, "C15", what, s)


def frames(g, id, own):
    L, ops = world(g, ALL, 7, 0.5)
    e = Episode(id, own, [], build=False)
    arrays = build_watched(g, e, ops)
    for _ in range(int(g.integers(1, 4))):
        if e.dead:
            return e
        p, d = gen.ray(g, ops, L)
        launch(g, e, p, d, arrays, type="faerie_fire" if g.random() < 0.15 else "normal", **gen.attrs(g))
    for _ in range(int(g.integers(2, 8))):
        if e.dead:
            return e
        activity(g, e, L, ops, arrays)
    e.event(e="untouched", prop="C15", before=[str(O.INDEX_OF_THE_WORLD)], after=["1.0"])
    return e


def result(ray):
    h = ray.get_plot_repr()
    return [freeze(np.asarray(h, dtype=float)), freeze(np.asarray(ray.direction, dtype=float)), repr(bool(ray.blocked))]


def slightly(g, ops):
    """the same optics, some changed by a little (any power of ten)"""
    def vary(o):
        o = dict(o)
        for k in ("R", "f", "index", "h", "w"):
            if k in o and g.random() < 0.3:
                o[k] = o[k] * (1 + 10 ** g.uniform(-7, -1))
        if "c" in o and g.random() < 0.4:
            o["c"] = [float(v + 10 ** g.uniform(-7, -1)) for v in o["c"]]
        for k in ("a", "n"):
            if k in o and g.random() < 0.4 and "tan" not in o:
                v = np.array(o[k])
                o[k] = [float(x) for x in v + gen.rnd_dir(g) * np.linalg.norm(v) * 10 ** g.uniform(-6, -1)]
        if "prims" in o:
            o["prims"] = [vary(p) for p in o["prims"]]
        return o
    return [vary(o) for o in ops]


def fresh_trace(ops, p, d, at, runs):
    """the path through a fresh scene (in a process that has not used the code before, when run there)"""
    return [short(x) for x in result(trace_of([W.build(o) for o in ops], p, d, at, runs))]


def trace_of(optics, p, d, at, runs):
    r = O.Ray(np.array(p), np.array(d), wavelength=at["wl"], order=at["order"])
    for D, c in runs:
        r.run(D, optics, **({} if c is None else dict(max_interactions=c)))
    return r


def retune(g, o, x):
    """another index, focal length, groove density, behaviour or tree for an optic: the new description; the object changes"""
    o = dict(o)
    if o["act"] == "refract" and g.random() < 0.7:
        x.index = o["index"] = float(g.choice([1.0, 1.3, 1.4, 1.5, 1.7, 2.0]) if g.random() < 0.7 else o["index"] * (1 + 10 ** g.uniform(-6, -2)))
    if o["k"] == "solid":
        y = g.random()
        if y < 0.3:
            o["act"] = "mirror" if o["act"] == "refract" else "refract"
            o.setdefault("index", 1.5)
            x.index = o["index"]
            x.surface_behavior = "reflect" if o["act"] == "mirror" else "refract"
        elif y < 0.6:                                     # another tree of the same primitives
            o["tree"] = gen.tree_of(g, list(range(1, len(o["prims"]) + 1)))
            x.tree = W.build_tree(o["tree"], [W.build_prim(p, int if o.get("int") else float) for p in o["prims"]])
    if o["act"] in ("ideal", "focus", "collimate"):
        if g.random() < 0.6:
            x.f = o["f"] = float(o["f"] * g.choice([-1, 1]) * g.uniform(0.5, 2))
        if g.random() < 0.4:
            o["act"] = str(g.choice(["ideal", "focus", "collimate"]))
            x.type = {"ideal": "ideal", "collimate": "ideal_collimate", "focus": "ideal_focus"}[o["act"]]
    if o["act"] == "grating":
        x.G = o["G"] = float(g.choice([100.0, 300.0, 600.0, 1200.0]))
    return o


def retuned(g, id, own):
    """the user changes properties of optics between runs; the next ray meets the optics as they are now"""
    L, ops = world(g, ["refract-sphere", "refract-solid", "mirror-solid", "ideal-disc", "focus-disc", "collimate-disc", "grating-rect"] * 2 + ["mirror-rect", "mirror-disc"], 6, 0.5)
    e = Episode(id, own, [], build=False)
    e.guard(lambda: e.optics.extend(W.build(o) for o in ops), "building the optics")
    p, d = gen.ray(g, ops, L)
    at = gen.attrs(g)
    runs = [(budget(g, L), cap(g)) for _ in range(int(g.integers(1, 3)))]
    for _ in range(int(g.integers(1, 4))):
        q, v = (p, d) if g.random() < 0.5 else gen.ray(g, ops, L)
        e.guard(lambda: trace_of(e.optics, q, v, at, runs), "tracing")
        if e.dead:
            return e
        ops = [retune(g, o, x) if g.random() < 0.6 else o for o, x in zip(ops, e.optics)]
        a = e.guard(lambda: [short(x) for x in result(trace_of(e.optics, p, d, at, runs))], "tracing")
        b = e.guard(lambda: fresh_trace(ops, p, d, at, runs), "tracing")
        if not e.dead:
            e.event(e="twin", a=a, b=b)
    return e


def twins(g, id, own):
    """the same launch in a fresh process, in a fresh copy of the scene, and after other rays, queries and other scenes"""
    L, ops = world(g, ALL if g.random() < 0.6 else SOLIDS + REFRACT + ["mirror-rect"], 6, 0.5)
    e = Episode(id, own, [], build=False)
    p, d = gen.ray(g, ops, L)
    at = gen.attrs(g)
    runs = [(budget(g, L), cap(g)) for _ in range(int(g.integers(1, 4)))]
    other = []
    if g.random() < 0.5:                    # another, similar scene first
        e.guard(lambda: other.extend(W.build(o) for o in slightly(g, ops)), "building the optics")
        e.guard(lambda: trace_of(other, p, d, at, runs), "tracing")
    e.guard(lambda: e.optics.extend(W.build(o) for o in ops), "building the optics")
    if not other:
        e.guard(lambda: other.extend(W.build(o) for o in slightly(g, ops)), "building the optics")
    for _ in range(int(g.integers(1, 5))):
        if e.dead:
            return e
        q, v = (p, d) if g.random() < 0.3 else gen.ray(g, ops, L)
        a = at if g.random() < 0.3 else gen.attrs(g)
        r = e.guard(lambda: O.Ray(np.array(q), np.array(v), wavelength=a["wl"], order=a["order"],
                                  type="faerie_fire" if g.random() < 0.15 else "normal",
                                  print_trajectory=bool(g.random() < 0.2)), "Ray()")
        if r is None:
            return e
        if g.random() < 0.5:                              # (the others are gone after their run)
            e.rays.append(r)
        e.guard(lambda: r.run(budget(g, L), other if g.random() < 0.4 else e.optics), "Ray.run()")
        e.guard(lambda: O.get_index_at_point(e.optics, np.array(q)), "get_index_at_point()")
    a = e.guard(lambda: trace_of(e.optics, p, d, at, runs), "tracing")
    if e.dead:
        return e
    a = [short(x) for x in result(a)]
    others = [lambda: fresh_trace(ops, p, d, at, runs), lambda: [short(x) for x in result(trace_of(e.optics, p, d, at, runs))],
              lambda: pristine.call(fresh_trace, ops, p, d, at, runs)]
    for f in others:
        b = e.guard(f, "tracing")
        if not e.dead:
            e.event(e="twin", a=a, b=b)
    return e


def passing(g, id, own):
    """many short-lived rays through one scene, each compared with the same ray in a new copy of the scene"""
    L, ops = world(g, ALL if g.random() < 0.5 else SOLIDS + REFRACT + ["mirror-rect"], 5, 0.3)
    e = Episode(id, own, [], build=False)
    e.guard(lambda: e.optics.extend(W.build(o) for o in ops), "building the optics")
    for _ in range(8):
        if e.dead:
            break
        p, d = gen.ray(g, ops, L)
        at, runs = gen.attrs(g), [(budget(g, L), int(g.integers(1, 4)) if g.random() < 0.7 else None)]
        a = e.guard(lambda: [short(x) for x in result(trace_of(e.optics, p, d, at, runs))], "tracing")
        b = e.guard(lambda: fresh_trace(ops, p, d, at, runs), "tracing")
        if not e.dead:
            e.event(e="twin", a=a, b=b)
    return e


# ------------------------------------------------------------------ drawing
AX = None


def axes():
    global AX
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    if AX is None:
        AX = plt.figure().add_subplot(projection="3d")
    AX.cla()
    return AX


def bezier(verts, codes, n=6):
    """a path's corners and points on its curves"""
    out, k = [], 0
    codes = [1] + [2] * (len(verts) - 1) if codes is None else list(codes)
    while k < len(verts):
        c = codes[k]
        if c in (1, 2):
            out.append(verts[k])
            k += 1
        elif c in (3, 4):
            m = c - 1
            pts = [out[-1]] + [verts[k + j] for j in range(m)]
            for i in range(1, n + 1):
                t = i / n
                q = [np.array(x) for x in pts]
                while len(q) > 1:
                    q = [(1 - t) * a + t * b for a, b in zip(q, q[1:])]
                out.append(q[0])
            k += m
        else:
            k += 1
    if len(out) > 1 and np.allclose(out[0], out[-1], rtol=0, atol=1e-12 * (1 + np.max(np.abs(out[0])))):
        out.pop()
    return out


def ids(xs):
    return {id(x) for x in xs}


def drawn(ax, before):
    """the new artists: [("path", points) or ("polygons", [points])]"""
    from mpl_toolkits.mplot3d import art3d
    out = []
    for a in ax.get_children():
        if ids([a]) <= before:
            continue
        if isinstance(a, art3d.PathPatch3D):
            out.append(("path", bezier(np.asarray(a._segment3d, dtype=float), a._code3d)))
        elif isinstance(a, art3d.Patch3D):
            out.append(("path", list(np.asarray(a._segment3d, dtype=float))))
        elif isinstance(a, art3d.Poly3DCollection):
            out.append(("polygons", polygons(a)))
        elif isinstance(a, art3d.Line3D):
            out.append(("path", bezier(np.array(a.get_data_3d(), dtype=float).T, None)))
    return out


def polygons(a):
    if hasattr(a, "_vec") and hasattr(a, "_segslices"):
        xyz = np.asarray(a._vec[:3], dtype=float).T
        return [list(xyz[s]) for s in a._segslices]
    bad = np.broadcast_to(np.asarray(a._invalid_vertices), a._faces.shape[:2])
    return [[np.array(v, dtype=float) for v, no in zip(f, b) if not no] for f, b in zip(a._faces, bad)]


DRAWN = ["mirror-disc", "mirror-rect", "mirror-concave", "mirror-sphere", "ideal-disc", "refract-sphere", "grating-rect", "detector-rect",
         "focus-disc", "dmd-rect"]


def drawings(g, id, own):
    L = float(g.choice(SCALES))
    ops = [gen.optic(g, str(g.choice(DRAWN)), L) for _ in range(int(g.integers(1, 4)))]
    e = Episode(id, own, ops)
    if e.dead:
        return e
    if g.random() < 0.6:
        p, d = gen.ray(g, ops, L)
        r = e.guard(lambda: O.Ray(np.array(p), np.array(d)), "Ray()")
        if r is not None:
            e.rays.append(r)
            e.guard(lambda: r.run(L, e.optics), "Ray.run()")
    ax = axes()
    for o, desc in zip(e.optics, ops):
        if e.dead:
            break
        before = ids(ax.get_children())
        keep = list(ax.get_children())
        s = Snapshot(watched(e, []))
        e.guard(lambda: o.draw(ax, **({} if g.random() < 0.5 else dict(view=str(g.choice(["3d", "xyz"]))))), "draw()")
        if e.dead:
            break
        frame(e, "C26", "drawing", s)
        arts = e.guard(lambda: drawn(ax, before), "reading the drawing")
        if e.dead:
            break
        one_drawing(e, desc, arts)
        del keep
    return e


def one_drawing(e, desc, arts):
    k = desc["k"]
    if k in ("disc", "concave"):
        pts = arts[0][1] if len(arts) == 1 and arts[0][0] == "path" else \
            arts[0][1][0] if len(arts) == 1 and len(arts[0][1]) == 1 else []
        fin = len(pts) > 0 and is_finite(pts)
        e.event(e="circle", fin=fin, n=scaled_vec(desc["n"]), c=vec(desc["c"]), R=num(desc["R"]), pts=[vec(p) for p in pts] if fin else [])
    elif k == "rect":
        pts = [p for kind, x in arts for p in (x[0] if kind == "polygons" and len(x) == 1 else x if kind == "path" else [])] if len(arts) == 1 else []
        fin = len(pts) > 0 and is_finite(pts)
        e.event(e="corners", fin=fin, c=vec(desc["c"]), n=scaled_vec(desc["n"]), tan=scaled_vec(desc["tan"]), h=num(desc["h"]), w=num(desc["w"]),
                pts=[vec(p) for p in pts] if fin else [])
    else:
        polys = [poly for kind, x in arts if kind == "polygons" for poly in x]
        pts = [p for poly in polys for p in poly]
        area = sum(np.linalg.norm(np.sum(np.cross(np.array(p), np.roll(p, -1, axis=0)), axis=0)) / 2
                   for p in (np.array(poly) - poly[0] for poly in polys if len(poly) > 2))
        pts = pts[:: max(1, len(pts) // 250)] + pts[-1:]
        fin = len(pts) > 0 and is_finite(pts)
        e.event(e="ball", fin=fin, c=vec(desc["c"]), R=num(desc["R"]), area=num(area) if fin else [], pts=[vec(p) for p in pts] if fin else [])


FIGURES = None


def figure(g, L):
    """a plane figure of matplotlib"""
    import matplotlib.patches as P
    from matplotlib.path import Path
    at = tuple(g.uniform(-L, L, size=2)) if g.random() < 0.6 else (0, 0)
    a, b = (float(L * 10 ** g.uniform(-2, 0)) for _ in "ab")
    turn = float(g.uniform(0, 360))
    k = int(g.integers(7))
    if k == 0:
        return P.Circle(at, a)
    if k == 1:
        return P.Rectangle(at, a, b, angle=turn)
    if k == 2:
        return P.Ellipse(at, a, b, angle=turn)
    if k == 3:
        return P.RegularPolygon(at, int(g.integers(3, 9)), radius=a, orientation=np.radians(turn))
    if k == 4:
        return P.Polygon(g.uniform(-L, L, size=(int(g.integers(3, 8)), 2)), closed=bool(g.random() < 0.5))
    if k == 5:
        return P.Wedge(at, a, turn, turn + float(g.uniform(10, 350)), width=a / 3 if g.random() < 0.5 else None)
    return P.PathPatch(Path(g.uniform(-L, L, size=(int(g.integers(3, 9)), 2))))


def figures(g, id, own):
    """plane figures carried into space by hand"""
    e = Episode(id, own, [])
    axes()                                                  # (the drawing library is set up)
    for _ in range(4):
        L = float(10 ** g.uniform(-1, 4))
        p = figure(g, L)
        flat = np.array(p.get_patch_transform().transform_path(p.get_path()).vertices, dtype=float)
        named = g.random() < 0.2
        n = str(g.choice(list("xyz"))) if named else gen.normal(g)
        z = 0 if g.random() < 0.4 else float(g.uniform(-L, L))
        moves = [g.uniform(-L, L, size=3) for _ in range(int(g.integers(3)))]
        off = np.array([0, 0, z], dtype=float) + sum(moves, np.zeros(3))
        if named:
            nv = np.eye(3)["xyz".index(n)]
        else:
            nv = np.array(n, dtype=float)
            n = [np.array(nv), list(map(float, nv)), tuple(map(float, nv))][int(g.integers(3))]
        given = [a for a in [n, *moves] if isinstance(a, np.ndarray)]
        s = Snapshot(watched(e, given))
        if named and n == "z" and g.random() < 0.3:
            e.guard(lambda: G.pathpatch_2d_to_3d(p, z), "pathpatch_2d_to_3d()")
        elif z == 0 and g.random() < 0.4:
            e.guard(lambda: G.pathpatch_2d_to_3d(p, normal=n), "pathpatch_2d_to_3d()")
        else:
            e.guard(lambda: G.pathpatch_2d_to_3d(p, z=z, normal=n), "pathpatch_2d_to_3d()")
        for m in moves:
            if not e.dead:
                e.guard(lambda: G.pathpatch_translate(p, m if g.random() < 0.5 else tuple(map(float, m))), "pathpatch_translate()")
        if e.dead:
            break
        frame(e, "C26", "carrying a figure into space", s)
        pts = np.asarray(p._segment3d)
        fin = pts.ndim == 2 and pts.shape[1] == 3 and is_finite(pts)
        e.event(e="patch", fin=fin, n=scaled_vec(nv), off=vec(off), flat=[[num(a), num(b)] for a, b in flat], pts=[vec(q) for q in pts] if fin else [])
    return e


VIEWS = ["xy", "tangential", "xz", "sagittal"]


def marks(g, id, own):
    """mirrors seen along an axis"""
    global FIGURES
    L = float(g.choice(SCALES))
    ops = [gen.optic(g, "mirror-disc", L) for _ in range(3)]
    e = Episode(id, own, ops)
    if e.dead:
        return e
    axes()
    import matplotlib.pyplot as plt
    if FIGURES is None:
        FIGURES = plt.figure().add_subplot()
    ax = FIGURES
    ax.cla()
    for o, desc in zip(e.optics, ops):
        view = str(g.choice(VIEWS))
        before = list(ax.lines)
        s = Snapshot(watched(e, []))
        e.guard(lambda: o.draw(ax, view) if g.random() < 0.5 else o.draw(ax, view=view), "draw()")
        if e.dead:
            break
        frame(e, "C26", "drawing", s)
        pts = [p for l in ax.lines if not any(l is b for b in before) for p in np.array(l.get_data(), dtype=float).T]
        fin = is_finite(pts) if pts else True
        e.event(e="marker", fin=fin, view=view, c=vec(desc["c"]), pts=[[num(a), num(b)] for a, b in pts] if fin else [])
    return e


def equal_axes(g, id, own):
    e = Episode(id, own, [])
    ax = axes()
    for _ in range(3):
        L = float(10 ** (g.uniform(-2, 3) if g.random() < 0.5 else g.uniform(-6, 7)))
        for f in (ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d):
            a = g.uniform(-L, L)
            b = a + L * 10 ** g.uniform(-2, 1)
            if g.random() < 0.1:
                a, b = b, a
            f([a, b])

        def limits():
            return [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
        before = [tuple(map(float, l)) for l in limits()]
        e.guard(lambda: general.set_axes_equal(ax), "set_axes_equal()")
        if e.dead:
            break
        after = limits()
        if not is_finite(*after):
            e.event(e="raised", what="not finite limits")
            break
        e.event(e="equalaxes", before=[vec(l) for l in before], after=[vec(l) for l in after])
    return e


def defaults(g, id, own):
    """what is left out in calls"""
    e = Episode(id, own, [])
    c, n = g.uniform(-5, 5, size=3), gen.normal(g)
    t = gen.perp(g, np.array(n) / np.linalg.norm(n))
    D = float(g.uniform(1, 9))

    def say(what, v):
        e.event(e="default", what=what, value=v if isinstance(v, str) else str(bool(v)) if isinstance(v, (bool, np.bool_)) else repr(float(v)))

    def ray():
        r = O.Ray(c, n)
        say("ray_wavelength", r.wavelength)
        say("ray_order", r.order)
        say("ray_type", r.type)
        say("ray_blocked", r.blocked)

    def lens():
        l = O.Lens(c, shape="spherical", D=D)
        say("lens_index", l.index)
        say("lens_kind", l.type)
        say("lens_shape", O.Lens(c, n, D=D, f=1.0, type="ideal").shape)

    def solid():
        k = O.Compound(G.BinaryTree(S.Sphere(c, D=D)))
        say("solid_index", k.index)
        say("solid_behaviour", k.surface_behavior)

    def flat():
        m = O.Mirror(c, normal=n, D=D)
        say("mirror_shape", m.shape)
        say("mirror_kind", m.type)
        say("grating_shape", O.Grating(c, n, t, w=D, h=D, G=100.0).shape)
        d = O.Detector(c, n, t, w=D, h=D)
        say("detector_shape", d.shape)
        say("detector_hits", len(d.hit_data))
        say("index_of_the_world", O.get_index_at_point([m, d], c))

    def sources():
        o, d, w = G.image_rays(float(c[1]))
        say("image_rays", len(o))
        xs = np.array(o)
        say("image_half_size", round(float(xs[:, 0].max()), 9))
        say("image_angle", round(float(max(np.arctan2(v[2], v[1]) for v in d)), 9))
        inside = max(float(np.hypot(p[0], p[2])) for p, v in zip(o, w) if v == 680.0)
        outside = min(float(np.hypot(p[0], p[2])) for p, v in zip(o, w) if v != 680.0)
        say("image_red_disc", 2.5 if inside <= 2.5 < outside else inside)
        if g.random() < 0.2:
            say("profiling_rays", len(O.add_faerie_fire_rays([], D, c)))
    for f in (ray, lens, solid, flat, sources):
        if not e.dead:
            e.guard(f, f.__name__ + "()")
    return e


def register(suite):
    suite("C25", "defaults", defaults, 40, 200)
    suite("C25", "rounds", rounds, 400, 5000)
    suite("C25", "rectangles", rectangles, 400, 5000)
    suite("C25", "names", names, 400, 4000)
    suite("C15", "frames", frames, 700, 8000)
    suite("C15", "passing", passing, 200, 3000)
    suite("C15", "twins", twins, 500, 6000)
    suite("C15", "retuned", retuned, 300, 4000)
    suite("C26", "drawings", drawings, 400, 4000)
    suite("C26", "axes", equal_axes, 100, 1000)
    suite("C26", "figures", figures, 200, 3000)
    suite("C26", "marks", marks, 60, 600)
