"""Single calls of shapes, solids and membership queries (C05 to C08)."""
import json
import numpy as np
import gen
import optics3d as O
import Shapes.shapes as S
import general_optics as G
import world as W
from enc import num, vec, is_finite
from record import Episode
from tracer_suites import SCALES, ALL, world


def ray_at(g, c, size, ex=False):
    """a ray around a shape of a size: towards it, past it, from inside, away"""
    if g.random() < 0.3:
        p = c + gen.rnd_dir(g) * size * g.uniform(0, 1)
        d = gen.rnd_dir(g)
    else:
        p = c + gen.rnd_dir(g) * size * g.uniform(0.5, 6)
        d = c + gen.rnd_dir(g) * size * g.uniform(0, 1.5) - p
        if g.random() < 0.2:
            d = -d
        d = d / np.linalg.norm(d)
    return p, d * (1.0 if g.random() < 0.7 else 10 ** g.uniform(-2, 2))


def meet(e, sh, obj, p, d, ex=False):
    """one call of test_intersect"""
    def call():
        ray = O.Ray(np.array(p, dtype=float), np.array(d, dtype=float))
        r = obj.test_intersect(ray)
        if len(r) == 3:
            pts, ns, count = [r[1]], [r[2]], 0
        elif len(r) == 4:
            pts, ns, count = [r[1]], [r[2]], 0 if r[3] in (None, True) else 1
        else:
            pts, ns, count = [r[1], r[2]], [r[3], r[4]], int(r[5])
        return bool(r[0]), [(a, b) for a, b in zip(pts, ns) if a is not None] if r[0] else [], count
    got = e.guard(call, "test_intersect()")
    if got is None:
        return
    hit, pairs, count = got
    fin = not hit or (len(pairs) > 0 and all(b is not None for _, b in pairs) and is_finite([a for a, _ in pairs], [b for _, b in pairs]))
    e.event(e="meet", sh=sh, p=vec(p), d=vec(d), ex=ex, hit=hit, fin=fin, count=count,
            pts=[vec(a) for a, _ in pairs] if fin else [], ns=[vec(b) for _, b in pairs] if fin else [])


def flat(g, ex):
    """-> (spec record, constructor, centre, size, normal, tangent)"""
    if ex:
        N = 4
        ax = int(g.integers(3))
        n = gen.AXES[2 * ax] * g.choice([1.0, -1.0, 2.0])
        t = gen.AXES[2 * ((ax + 1 + int(g.integers(2))) % 3)] * g.choice([1.0, -1.0, 4.0])
        c = g.integers(-N, N + 1, size=3).astype(float)
        h, w, R, size = float(g.integers(0, 6)), float(g.integers(0, 6)), float(g.choice([1, 2, 5, 0.5, 13])), 3.0
    else:
        L = float(g.choice(SCALES + [0.01, 1e4]))
        n = gen.normal(g)
        t = gen.perp(g, n / np.linalg.norm(n)) * g.uniform(0.2, 5)
        c = g.uniform(-L, L, size=3)
        h, w, R = (float(L * g.uniform(0.05, 2)) for _ in range(3))
        size = R
        if g.random() < 0.1:
            h, w = h * g.choice([1e-3, 1e3]), w * g.choice([1e-3, 1, 1e3])
    k = str(g.choice(["plane", "disc", "rect"]))
    sh = dict(k=k, c=vec(c), n=vec(n))
    D = {} if g.random() < 0.5 else dict(R=R)
    if not D:
        D = dict(D=2 * R)
    if k == "plane":
        return sh, lambda: S.Plane(c, n), c, size, n, t, (h, w)
    if k == "disc":
        sh["R"] = num(R)
        mk = [lambda: S.Circle(c, n, **D),
              lambda: O.Mirror(c, shape="circular_flat", normal=n, D=2 * R),
              lambda: O.Lens(c, normal=n, D=2 * R, f=1.0, type="ideal")][int(g.choice([0, 0, 1, 2]))]
        return sh, mk, c, R, n, t, (h, w)
    sh.update(tan=vec(t), h=num(h), w=num(w))
    mk = [lambda: S.Rectangle(c, n, t, h=h, w=w),
          lambda: O.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w),
          lambda: O.Grating(c, n, t, w=w, h=h, G=600),
          lambda: O.Detector(c, n, t, w=w, h=h)][int(g.choice([0, 0, 1, 2, 3]))]
    return sh, mk, c, max(h, w, 1e-3) / 2, n, t, (h, w)


def flats(g, id, own, ex=None):
    ex = bool(g.random() < 0.4) if ex is None else ex
    e = Episode(id, own, [])
    sh, mk, c, size, n, t, (h, w) = flat(g, ex)
    obj = e.guard(mk, "building a flat shape")
    if obj is None:
        return e
    for _ in range(12):
        if ex:
            p = c + g.integers(-7, 8, size=3)
            d = gen.AXES[g.integers(6)] * g.choice([1.0, 2.0, 0.5])
            if g.random() < 0.4:                      # at an edge or corner
                u, t1 = n / np.linalg.norm(n), t / np.linalg.norm(t)
                p = c + t1 * h / 2 * g.integers(-1, 2) + np.cross(u, t1) * w / 2 * g.integers(-1, 2) + u * g.integers(-3, 4)
                d = u * g.choice([-1.0, 1.0])
        else:
            p, d = ray_at(g, c, size)
            if g.random() < 0.3:                      # nearly along the plane, or in it
                u = n / np.linalg.norm(n)
                d = gen.perp(g, u) + u * 10 ** g.uniform(-12, -1) * g.choice([-1, 1])
        meet(e, sh, obj, p, d, ex)
    return e


def prim(g, ex):
    k = "sphere" if g.random() < 0.5 else "cyl"
    if ex:
        c = g.integers(-4, 5, size=3).astype(float)
        p = dict(shape=k, c=list(c), R=float(g.choice([1, 2, 4, 0.5])), useR=bool(g.random() < 0.5))
        if k == "cyl":
            p["a"] = list(gen.AXES[g.integers(6)] * g.choice([1.0, 2.0]))
    else:
        L = float(g.choice(SCALES + [0.01, 1e4]))
        p = dict(shape=k, c=list(map(float, g.uniform(-L, L, size=3))), R=float(L * 10 ** g.uniform(-2, 0.5)), useR=bool(g.random() < 0.5))
        if k == "cyl":
            p["a"] = list(map(float, gen.normal(g)))
    return p


def prims(g, id, own, ex=None):
    ex = bool(g.random() < 0.4) if ex is None else ex
    e = Episode(id, own, [])
    s = prim(g, ex)
    obj = e.guard(lambda: W.build_prim(s), "building a primitive")
    if obj is None:
        return e
    sh = dict(k="prim", **W.spec_prim(s))
    c, R = np.array(s["c"]), s["R"]
    for _ in range(12):
        if ex:
            d = gen.AXES[g.integers(6)] * g.choice([1.0, 2.0, 0.5])
            u = gen.AXES[g.integers(6)]
            p = c + u * R * float(g.integers(-2, 3)) + np.array(d) * R * float(g.integers(-3, 4))
        else:
            p, d = ray_at(g, c, R)
            x = g.random()
            if x < 0.15:                              # near a tangent
                u = gen.rnd_dir(g)
                if s["shape"] == "cyl":
                    u = gen.perp(g, np.array(s["a"]) / np.linalg.norm(s["a"]))
                d = gen.perp(g, u)
                p = c + u * R * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-10, -1)) - d * R * g.uniform(-4, 4)
            elif x < 0.3 and s["shape"] == "cyl":     # (nearly) along the axis
                a = np.array(s["a"]) / np.linalg.norm(s["a"])
                d = a * g.choice([-1, 1]) + gen.rnd_dir(g) * (0 if g.random() < 0.2 else 10 ** g.uniform(-6, -1))
                p = c + gen.perp(g, a) * R * g.uniform(0, 2) + a * R * g.uniform(-3, 3)
            elif x < 0.5:                             # starting very close to the surface, outside or inside
                u = gen.rnd_dir(g)
                if s["shape"] == "cyl":
                    a = np.array(s["a"]) / np.linalg.norm(s["a"])
                    u = gen.perp(g, a) 
                p = c + u * (R + 10 ** g.uniform(-6.5, -1) * R ** g.choice([0, 0.5, 1]) * g.choice([-1, 1]))
                if s["shape"] == "cyl":
                    p = p + a * R * g.uniform(-2, 2)
            elif x < 0.6:                             # far away
                p = c - d / np.linalg.norm(d) * R * 10 ** g.uniform(1, 3) + gen.rnd_dir(g) * R
        meet(e, sh, obj, p, d, ex)
    return e


def deep_desc(g, ex):
    """a solid composed of dozens of primitives, one after the other"""
    n = int(g.integers(12, 45))
    if ex:
        ps = []
        for _ in range(n):
            p = prim(g, True)
            p["c"] = list(g.integers(-2, 3, size=3).astype(float))
            ps.append(p)
        c, size = np.zeros(3), 2.0
    else:
        L = float(g.choice(SCALES))
        c, size = g.uniform(-L, L, size=3), L * g.uniform(0.1, 1)
        ps = []
        while len(ps) < n:
            ps += gen.solid(g, c, size, cyl=0.1)[0]
        ps = ps[:n]
    return dict(k="solid", act="refract", prims=ps, tree=gen.chain(g, list(range(1, n + 1))), index=1.5), c, size


def solid_desc(g, ex, nmax=7):
    if g.random() < 0.06:
        return deep_desc(g, ex)
    if not ex:
        L = float(g.choice(SCALES))
        c = g.uniform(-L, L, size=3)
        size = L * g.uniform(0.1, 1)
        ps, tree = gen.solid(g, c, size, nmax=nmax, cyl=0.35)
        return dict(k="solid", act="refract", prims=ps, tree=tree, index=1.5), c, size
    n = int(g.integers(1, 6))
    ps = []
    for _ in range(n):
        p = prim(g, True)
        p["c"] = list(g.integers(-2, 3, size=3).astype(float))
        ps.append(p)
    return dict(k="solid", act="refract", prims=ps, tree=gen.tree_of(g, list(range(1, n + 1))), index=1.5), np.zeros(3), 2.0


def solids(g, id, own, aligned=None):
    """rays against one solid: the tree function and the optic"""
    aligned = bool(g.random() < 0.3) if aligned is None else aligned
    e = Episode(id, own, [])
    if aligned:                                       # everything on one line, at integers: coincident surfaces
        ax = gen.AXES[2 * int(g.integers(3))]
        n = int(g.integers(1, 6) if g.random() < 0.9 else g.integers(6, 40))
        ps = []
        for _ in range(n):
            if g.random() < 0.75:
                ps.append(dict(shape="sphere", c=list(ax * float(g.integers(-4, 5))), R=float(g.integers(1, 5))))
            else:                                     # a cylinder across the line, or along it
                a = gen.AXES[g.integers(6)]
                ps.append(dict(shape="cyl", c=list(ax * float(g.integers(-4, 5))), R=float(g.choice([1, 2, 4])), a=list(a)))
        o = dict(k="solid", act="mirror", prims=ps, tree=(gen.tree_of if g.random() < 0.8 else gen.chain)(g, list(range(1, n + 1))), index=1.5,
                 int=bool(g.random() < 0.3))
    else:
        o, c, size = solid_desc(g, False)
    obj = e.guard(lambda: W.build(o), "building a solid")
    if obj is None:
        return e
    sh = W.spec(o)

    class Tree:
        def test_intersect(self, ray):
            return G.test_tree_intersect(obj.tree, ray)
    for k in range(8):
        if aligned:
            p, d = ax * float(g.integers(-9, 10)), ax * g.choice([-1.0, 1.0])
        else:
            p, d = ray_at(g, c, size)
            if g.random() < 0.1:                      # along a cylinder's axis
                cy = [q for q in o["prims"] if q["shape"] == "cyl"]
                if cy:
                    d = np.array(cy[0]["a"]) / np.linalg.norm(cy[0]["a"])
                    p = np.array(cy[0]["c"]) + gen.perp(g, d) * cy[0]["R"] * g.uniform(0, 1.5) - d * size * g.uniform(0, 4)
        meet(e, sh, obj if k % 2 else Tree(), p, d, aligned)
    return e


def skins(g, id, own):
    """solids whose surfaces come very close to one another where the ray passes: thin skins, narrow gaps"""
    e = Episode(id, own, [])
    L = float(g.choice([0.1, 1.0, 1.0, 10.0]))
    q, d = g.uniform(-L, L, size=3), gen.rnd_dir(g)
    gap = 10 ** g.uniform(-7.7, -2)
    n = int(g.integers(2, 6))
    ps = []
    for k in range(n):
        at = q + d * gap * (k if g.random() < 0.8 else g.uniform(0, n)) if g.random() < 0.85 else q + d * L * g.uniform(-2, 2)
        R = L * g.uniform(0.3, 2)
        u = gen.rnd_dir(g)
        while abs(u @ d) < 0.3:
            u = gen.rnd_dir(g)
        if g.random() < 0.7:
            ps.append(dict(shape="sphere", c=list(map(float, at - u * R)), R=float(R), useR=bool(g.random() < 0.5)))
        else:
            a = gen.perp(g, u)
            ps.append(dict(shape="cyl", c=list(map(float, at - u * R + a * L * g.uniform(-2, 2))), R=float(R), a=list(map(float, a))))
    o = dict(k="solid", act="refract", prims=ps, tree=gen.tree_of(g, list(map(int, g.permutation(n) + 1))), index=1.5)
    obj = e.guard(lambda: W.build(o), "building a solid")
    if obj is None:
        return e
    sh = W.spec(o)

    class Tree:
        def test_intersect(self, ray):
            return G.test_tree_intersect(obj.tree, ray)
    for k in range(8):
        s = g.choice([-1.0, 1.0])
        if g.random() < 0.7:
            p, v = q - d * s * L * g.uniform(0.01, 3), d * s
        else:                                         # at a slight angle, or from inside a skin
            v = d * s + gen.rnd_dir(g) * g.uniform(0, 0.1)
            v /= np.linalg.norm(v)
            p = q + d * gap * n / 2 - v * (L * g.uniform(0.01, 3) if g.random() < 0.7 else gap * g.uniform(0, 1))
        meet(e, sh, obj if k % 2 else Tree(), p, v)
    return e


def members(g, id, own, ex=None):
    """points against one solid"""
    ex = bool(g.random() < 0.4) if ex is None else ex
    e = Episode(id, own, [])
    o, c, size = solid_desc(g, ex, nmax=9)
    obj = e.guard(lambda: W.build(o), "building a solid")
    if obj is None:
        return e
    sh = W.spec(o)
    for k in range(15):
        if ex:
            pt = g.integers(-5, 6, size=3).astype(float)
            if g.random() < 0.5:
                q = o["prims"][int(g.integers(len(o["prims"])))]
                pt = np.array(q["c"]) + gen.AXES[g.integers(6)] * q["R"]       # on the surface
        else:
            q = o["prims"][int(g.integers(len(o["prims"])))]
            pt = np.array(q["c"]) + gen.rnd_dir(g) * q["R"] * (g.uniform(0, 1.5) if g.random() < 0.6 else 1 + 10 ** g.uniform(-7, -1) * g.choice([-1, 1]))
        if k % 3 == 0:
            i = int(g.integers(len(o["prims"])))
            leaf = dict(sh, prims=[sh["prims"][i]], tree=dict(op="leaf", i=1))
            got = e.guard(lambda: W.build_prim(o["prims"][i]).test_point(pt), "test_point()")
            what = leaf
        elif k % 3 == 1:
            got = e.guard(lambda: G.test_tree_point(obj.tree, pt), "test_tree_point()")
            what = sh
        else:
            got = e.guard(lambda: obj.get_index_at_point_if_inside(pt) is not None, "get_index_at_point_if_inside()")
            what = sh
        if e.dead:
            return e
        e.event(e="member", sh=what, pt=vec(pt), obs=bool(got), ex=ex)
    return e


def growing(g, id, own):
    """a solid whose tree is changed between the questions: other values, leaves that become expressions, operators pushed in"""
    ex = bool(g.random() < 0.3) and own == "C07"
    e = Episode(id, own, [])
    o, c, size = solid_desc(g, ex, nmax=4)
    obj = e.guard(lambda: W.build(o), "building a solid")
    if obj is None:
        return e
    o = json.loads(json.dumps(o))

    def new():
        if ex:
            p = prim(g, True)
            p["c"] = list(g.integers(-2, 3, size=3).astype(float))
        else:
            p = gen.solid(g, c, size, nmax=1)[0][0]
        o["prims"].append(p)
        return len(o["prims"]), W.build_prim(p)

    def change():
        d, t = o["tree"], obj.tree
        while d["op"] != "leaf" and g.random() < 0.7:
            left = g.random() < 0.5
            d, t = d["l" if left else "r"], t.getLeftChild() if left else t.getRightChild()
        op, left = str(g.choice(["union", "intersect", "difference"])), bool(g.random() < 0.5)
        if d["op"] == "leaf":
            i, p = new()
            if g.random() < 0.4:                      # another primitive
                d["i"] = i
                t.setRootVal(p)
            else:                                     # a leaf becomes an expression
                old = t.getRootVal()
                t.setRootVal(op)
                (t.insertLeft if left else t.insertRight)(old)
                (t.insertRight if left else t.insertLeft)(p)
                was, x = dict(op="leaf", i=d.pop("i")), dict(op="leaf", i=i)
                d.update(op=op, l=was if left else x, r=x if left else was)
        elif g.random() < 0.5:
            d["op"] = op
            t.setRootVal(op)
        else:                                         # an operator between a node and its child
            i, p = new()
            side = "l" if left else "r"
            (t.insertLeft if left else t.insertRight)(op)
            (t.getLeftChild() if left else t.getRightChild()).__getattribute__("insertRight" if left else "insertLeft")(p)
            x = dict(op="leaf", i=i)
            d[side] = dict(op=op, l=d[side], r=x) if left else dict(op=op, l=x, r=d[side])

    class Tree:
        def test_intersect(self, ray):
            return G.test_tree_intersect(obj.tree, ray)
    asked = []
    for step in range(int(g.integers(2, 6))):
        sh = json.loads(json.dumps(W.spec(o)))
        for k in range(4):
            if own == "C07":
                q = o["prims"][int(g.integers(len(o["prims"])))]
                pt = g.integers(-5, 6, size=3).astype(float) if ex else np.array(q["c"]) + gen.rnd_dir(g) * q["R"] * g.uniform(0, 1.5)
                if asked and g.random() < 0.5:
                    pt = asked[int(g.integers(len(asked)))]
                asked = asked[-6:] + [pt]
                got = e.guard((lambda: G.test_tree_point(obj.tree, pt)) if k % 2 else (lambda: obj.get_index_at_point_if_inside(pt) is not None),
                              "a membership test")
                if not e.dead:
                    e.event(e="member", sh=sh, pt=vec(pt), obs=bool(got), ex=ex)
            else:
                p, d = ray_at(g, c, size) if not asked or g.random() < 0.5 else asked[int(g.integers(len(asked)))]
                asked = asked[-6:] + [(p, d)]
                meet(e, sh, obj if k % 2 else Tree(), p, d)
        if e.dead:
            break
        e.guard(change, "changing the tree of a solid")
        if e.dead:
            break
    return e


BODIES = ["refract-sphere", "refract-solid", "mirror-solid", "refract-solid"]


def indices(g, id, own):
    """the index of the world at points, overlapping bodies included"""
    L = float(g.choice(SCALES))
    ops = [gen.optic(g, str(g.choice(BODIES if g.random() < 0.7 else ALL)), L * 0.5) for _ in range(int(g.integers(1, 7)))]
    e = Episode(id, own, ops)
    for _ in range(12):
        if e.dead:
            break
        o = ops[int(g.integers(len(ops)))]
        pt = gen.target(g, o, L) if g.random() < 0.7 else g.uniform(-L, L, size=3)
        if g.random() < 0.3 and "c" in o:
            pt = np.array(o["c"]) + gen.rnd_dir(g) * L * g.uniform(0, 0.3)
        order = list(map(int, g.permutation(len(ops)) + 1))[: int(g.integers(0, len(ops) + 1)) or len(ops)]
        got = e.guard(lambda: O.get_index_at_point([e.optics[k - 1] for k in order], pt), "get_index_at_point()")
        if not e.dead:
            ok = is_finite(got) and np.ndim(got) == 0
            e.event(e="index", list=order, pt=vec(pt), obs=num(got) if ok else [-1], ex=False)
    return e


def register(suite):
    suite("C05", "shapes", flats, 700, 8000)
    suite("C06", "prims", prims, 900, 10000)
    suite("C07", "members", members, 900, 10000)
    suite("C07", "growing", growing, 400, 5000)
    suite("C08", "growing", growing, 400, 5000)
    suite("C07", "indices", indices, 600, 7000)
    suite("C08", "solids", solids, 900, 10000)
    suite("C08", "skins", skins, 500, 6000)
