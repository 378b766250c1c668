"""Builds the optics of a world from plain descriptions, and the records spec/Optics.tla reads.

A description is a dict: k, act and the constructor's arguments as plain numbers and lists.
Only constructors and methods a user calls are used here.
"""
import numpy as np
import optics3d as O
import Shapes.shapes as S
import general_optics as G
from enc import num, vec, limbs


class HBlock(O.Block):
    """The repository's Block has no geometry of its own; this one gets a shape, the behaviour is Block's."""
    def __init__(self, position, normal, shape, surface):
        super().__init__(position, normal, shape)
        self.surface = surface

    def test_intersect(self, ray):
        r = self.surface.test_intersect(ray)
        if len(r) == 3:
            return r[0], r[1], r[2], None
        if not r[0]:
            return False, None, None, None
        pts = [(np.linalg.norm(p - ray.position), p, n) for p, n in ((r[1], r[3]), (r[2], r[4])) if p is not None]
        d, p, n = min(pts, key=lambda x: x[0])
        return True, p, n, None


def own_kind(base):
    class Own(base):
        """stands everywhere in the way, like something drawn for orientation"""
        def test_intersect(self, ray):
            return True, ray.position + 0.5 * ray.direction, self.normal, True

        def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):
            ray.blocked = True
    return Own


OWN = dict(annotation=own_kind(O.Annotation), filter=own_kind(O.Filter), window=own_kind(O.Window))


def arr(v, dt=float):
    """an array of the caller's; whole numbers may be given as integers"""
    if dt is int and any(x != int(x) for x in v):
        dt = float
    return np.array([int(x) for x in v] if dt is int else v, dtype=dt)


def build_tree(node, prims):
    """expression -> BinaryTree, the way a user builds it: a root, then children inserted left and right"""
    if node["op"] == "leaf":
        return G.BinaryTree(prims[node["i"] - 1])
    t = G.BinaryTree(node["op"])
    _fill(t, node, prims)
    return t


def _fill(t, node, prims):
    for side, ins, get in (("l", t.insertLeft, t.getLeftChild), ("r", t.insertRight, t.getRightChild)):
        ch = node[side]
        if ch["op"] == "leaf":
            ins(prims[ch["i"] - 1])
        else:
            ins(ch["op"])
            _fill(get(), ch, prims)


def build_prim(p, dt=float):
    if p["shape"] == "sphere":
        if p.get("useR"):
            return S.Sphere(arr(p["c"], dt), R=p["R"])
        return S.Sphere(arr(p["c"], dt), D=2 * p["R"])
    if p.get("useR"):
        return S.InfiniteCylinder(arr(p["c"], dt), arr(p["a"], dt), R=p["R"])
    return S.InfiniteCylinder(arr(p["c"], dt), arr(p["a"], dt), D=2 * p["R"])


def build(o):
    """description -> real optic"""
    k, act = o["k"], o["act"]
    dt = int if o.get("int") else float
    c = arr(o["c"], dt) if "c" in o else None
    n = arr(o["n"], dt) if "n" in o else None
    t = arr(o["tan"], dt) if "tan" in o else None
    if k == "ignored":
        cls = {"annotation": O.Annotation, "filter": O.Filter, "window": O.Window}[act]
        if o.get("own"):                              # of a class of the user's own, with a shape
            cls = OWN[act]
        return cls(c, n, "circular_flat")
    if act == "block":
        if k == "rect":
            return HBlock(c, n, "rectangular_flat", S.Rectangle(c, n, t, h=o["h"], w=o["w"]))
        if k == "disc":
            return HBlock(c, n, "circular_flat", S.Circle(c, n, D=2 * o["R"]))
        return HBlock(c, arr([0, 0, 1.]), "spherical", S.Sphere(c, D=2 * o["R"]))
    if act == "detector":
        return O.Detector(c, n, t, w=o["w"], h=o["h"])
    if act == "grating":
        return O.Grating(c, n, t, w=o["w"], h=o["h"], G=o["G"], order=o.get("gorder"))
    if act in ("ideal", "collimate", "focus"):
        ty = {"ideal": "ideal", "collimate": "ideal_collimate", "focus": "ideal_focus"}[act]
        return O.Lens(c, normal=n, shape="spherical_biconvex", D=2 * o["R"], f=o["f"], type=ty)
    if k == "sphere" and act == "refract":
        return O.Lens(c, shape="spherical", D=2 * o["R"], index=o["index"])
    if k == "solid":
        prims = [build_prim(p, dt) for p in o["prims"]]
        return O.Compound(build_tree(o["tree"], prims),
                          surface_behavior="reflect" if act == "mirror" else "refract", index=o.get("index", 1.5))
    kw = {}
    if act == "dmd":
        kw = dict(type="dmd", dmd_normal=arr(o["dmd"], dt))
    if k == "disc":
        return O.Mirror(c, shape="circular_flat", normal=n, D=2 * o["R"], **kw)
    if k == "rect":
        return O.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=o["h"], w=o["w"], **kw)
    if k == "concave":
        return O.Mirror(c, shape="circular_concave_spherical", normal=n, D=2 * o["R"], f=o["f"], **kw)
    if k == "sphere":
        return O.Mirror(c, shape="circular_convex_spherical", D=2 * o["R"], **kw)
    raise KeyError((k, act))


def spec_prim(p):
    r = dict(shape=p["shape"], c=vec(p["c"]), R=num(p["R"]))
    if "a" in p:
        r["a"] = vec(p["a"])
    return r


def spec(o):
    """description -> record for the specification"""
    r = dict(k=o["k"], act=o["act"])
    for f in ("c", "n", "tan", "dmd"):
        if f in o:
            r[f] = vec(o[f])
    for f in ("R", "h", "w", "f", "index", "G"):
        if f in o:
            r[f] = num(o[f])
    if o["k"] == "solid":
        r["prims"] = [spec_prim(p) for p in o["prims"]]
        r["tree"] = o["tree"]
    return r
