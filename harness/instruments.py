"""Instruments as users build them: spectrometers, relays, resonators, lenses ground from balls, ... at any place and
orientation. Each is laid out along the y axis (as the scripts of the project are), then moved as a whole."""
import numpy as np
import gen


def bundle(g, x0, angle, n, wls=(532.0,), order=0, y=0.0):
    """rays from a small object towards +y"""
    out = []
    for _ in range(n):
        a, b = g.uniform(-angle, angle, size=2)
        x, z = g.uniform(-x0, x0, size=2) if g.random() < 0.8 else (0.0, 0.0)
        if g.random() < 0.15:
            a = b = 0.0
        out.append(([x, y, z], [np.tan(a), 1.0, np.tan(b)], dict(wl=float(wls[int(g.integers(len(wls)))]), order=order)))
    return out


def detector(c, n, size):
    return dict(act="detector", k="rect", c=c, n=n, tan=[0.0, 0.0, 1.0], h=size, w=size)


def czerny(g):
    f1, f2 = 150 * g.uniform(0.95, 1.05, size=2)
    ops = [dict(act="mirror", k="concave", c=[0, 150, 0], n=[0.25 * g.uniform(0.9, 1.1), -1, 0], f=f1, R=25.4),
           dict(act="grating", k="rect", c=[55, 50, 0], n=[0, 1, 0], tan=[0, 0, 1], h=50.0, w=50.0, G=float(g.choice([150, 300, 600])), gorder=1),
           dict(act="mirror", k="concave", c=[120, 137.5, 0], n=[-0.35 * g.uniform(0.9, 1.1), -1, 0], f=f2, R=25.4),
           detector([119, 0, 0], [0, 1, 0], 25.0)]
    return ops, bundle(g, 3, 0.08, 8, (350, 450, 530, 600, 610, 700), int(g.choice([1, 1, 1, 0, -1, 2]))), 550


def monochromator(g):
    """an ideal collimator, a grating and an ideal focuser"""
    G, order = float(g.choice([300, 600, 1200])), int(g.choice([1, -1]))
    tilt = g.uniform(0.1, 0.7)
    n = [np.sin(tilt), -np.cos(tilt), 0]
    out = np.array([np.sin(2 * tilt), -np.cos(2 * tilt), 0])
    ops = [dict(act="collimate", k="disc", c=[0, 50, 0], n=[0, 1, 0], R=12.0, f=50.0),
           dict(act="grating", k="rect", c=[0, 150, 0], n=n, tan=[0, 0, 1], h=60.0, w=60.0, G=G, gorder=order),
           dict(act="focus", k="disc", c=list(np.array([0, 150, 0]) + 90 * out), n=list(-out), R=45.0, f=60.0),
           detector(list(np.array([0, 150, 0]) + 150 * out), list(-out), 120.0)]
    return ops, bundle(g, 0.5, 0.15, 8, (400, 500, 532, 650), int(g.choice([order, order, 0]))), 500


def relay(g):
    f1, f2 = g.uniform(10, 30, size=2)
    ops = [dict(act="ideal", k="disc", c=[0, 2 * f1, 0], n=[0, -1, 0], R=25.0, f=f1),
           dict(act="ideal", k="disc", c=[0, 4 * f1 + 2 * f2, 0], n=[0, float(g.choice([-1, 1])), 0], R=25.0, f=f2),
           detector([0, 4 * f1 + 4 * f2, 0], [0, -1, 0], 30.0)]
    return ops, bundle(g, 5, 0.0624, 9), 4 * (f1 + f2) + 50


def telescope(g):
    """a beam expander: a diverging and a collecting lens"""
    f1, f2 = -g.uniform(20, 40), g.uniform(80, 120)
    ops = [dict(act="ideal", k="disc", c=[0, 20, 0], n=[0, 1, 0], R=8.0, f=f1), dict(act="ideal", k="disc", c=[0, 20 + f2 + f1, 0], n=[0, 1, 0], R=25.0, f=f2),
           dict(act="block", k="rect", c=[0, 200, 0], n=[0, 1, 0], tan=[0, 0, 1], h=80.0, w=80.0)]
    return ops, bundle(g, 6, 0.01, 9), 300


def projector(g):
    """an image thrown on a micromirror array, and on to a detector"""
    f1, f2 = 50.0, 25.0
    ym = 100 + 1 / (1 / f1 - 1 / 100)
    a = np.tan(np.radians(10.9 * g.choice([-1, 1])))
    way = np.array([np.sin(2 * np.arctan(a)), -np.cos(2 * np.arctan(a)), 0])
    m = np.array([0, ym, 0])
    ops = [dict(act="ideal", k="disc", c=[0, 100, 0], n=[0, -1, 0], R=12.5, f=f1),
           dict(act="dmd", k="rect", c=[0, ym, 0], n=[0, -1, 0], tan=[0, 0, 1], h=50.0, w=50.0, dmd=[a, -1, 0]),
           dict(act="ideal", k="disc", c=list(m + 2 * f2 * way), n=list(-way), R=12.5, f=f2),
           detector(list(m + 4 * f2 * way), list(-way), 50.0)]
    return ops, bundle(g, 2.5, 0.0624, 9), 450


def ground(g):
    """a lens ground from two balls"""
    r1, r2 = g.uniform(40, 120), g.uniform(40, 400)
    t = g.uniform(3, 8)
    y = 60.0
    a, b = dict(shape="sphere", c=[0, y + r1 - t / 2, 0], R=r1), dict(shape="sphere", c=[0, y - r2 + t / 2, 0], R=r2)
    op = "intersect"
    prims = [a, b]
    tree = dict(op=op, l=dict(op="leaf", i=1), r=dict(op="leaf", i=2))
    if g.random() < 0.4:                                    # with a cut edge
        prims.append(dict(shape="cyl", c=[0, y, 0], a=[0, 1, 0], R=g.uniform(8, 14)))
        tree = dict(op="intersect", l=tree, r=dict(op="leaf", i=3))
    elif g.random() < 0.4:                                  # plano-concave like: a rod with a hollow at its end
        prims = [dict(shape="sphere", c=[0, y + 15, 0], R=20.0), dict(shape="sphere", c=[0, y - 30 + 4, 0], R=30.0)]
        tree = dict(op="difference", l=dict(op="leaf", i=1), r=dict(op="leaf", i=2))
    ops = [dict(act="refract", k="solid", c=[0, y, 0], prims=prims, tree=tree, index=float(g.choice([1.5167, 1.33, 1.8]))),
           detector([0, y + 200, 0], [0, 1, 0], 60.0)]
    return ops, bundle(g, 6.35, 0.0 if g.random() < 0.5 else 0.05, 9), 300


def balls(g):
    """a condenser of two ball lenses"""
    R = g.uniform(3, 10)
    ops = [dict(act="refract", k="sphere", c=[0, 50, 0], R=R, index=1.5), dict(act="refract", k="sphere", c=[0, 50 + 3 * R, 0], R=R * 0.9, index=float(g.choice([1.33, 1.8, 2.0]))),
           detector([0, 150, 0], [0, 1, 0], 60.0)]
    return ops, bundle(g, 0.8 * R, 0.02, 9), 250


def corner(g):
    """three mirrors at right angles send everything back"""
    ops = []
    for i in range(3):
        n = np.roll([1.0, 0, 0], i)
        c = np.full(3, 10.0) * (1 - n)
        ops.append(dict(act="mirror", k="rect", c=list(c), n=list(n * g.choice([-1, 1])), tan=list(np.roll(n, 1)), h=20.0, w=20.0))
    out = []
    for _ in range(8):
        p = g.uniform(1, 19, size=3)
        out.append((list(p), list(-np.abs(gen.rnd_dir(g)) + 1e-3), {}))
    return ops, out, 60


def resonator(g):
    """two mirrors face to face"""
    d = 100.0
    ops = []
    for s in (1, -1):
        if g.random() < 0.6:
            ops.append(dict(act="mirror", k="concave", c=[0, 50 + s * d / 2, 0], n=[0, -s, 0], f=d * g.uniform(0.3, 2), R=15.0))
        else:
            ops.append(dict(act="mirror", k="disc", c=[0, 50 + s * d / 2, 0], n=[0, -s, 0], R=15.0))
    if g.random() < 0.4:
        ops.append(dict(act="refract", k="sphere", c=[0, 50, 0], R=12.0, index=1.2))
    return ops, bundle(g, 3, 0.02, 4, y=30.0), 1500


def newton(g):
    """a concave mirror, a small plane one before it and a detector at the side"""
    f = 200.0
    ops = [dict(act="mirror", k="concave", c=[0, 200, 0], n=[0, -1, 0], f=f, R=40.0),
           dict(act="mirror", k="disc", c=[0, 50, 0], n=[1, 1, 0], R=12.0),
           detector([50, 50, 0], [-1, 0, 0], 30.0)]
    return ops, bundle(g, 35, 0.005, 9), 600


def periscope(g):
    ops = [dict(act="mirror", k="rect", c=[0, 30, 0], n=[0, -1, 1], tan=[1, 0, 0], h=20.0, w=20.0), dict(act="mirror", k="rect", c=[0, 30, 60], n=[0, 1, -1], tan=[1, 0, 0], h=20.0, w=20.0),
           dict(act="annotation", k="ignored", c=[0, 30, 30], n=[0, 0, 1]), dict(act="ideal", k="disc", c=[0, 60, 60], n=[0, 1, 0], R=10.0, f=40.0),
           detector([0, 100, 60], [0, -1, 0], 20.0)]
    return ops, bundle(g, 4, 0.03, 9), 200


def maze(g):
    """glass balls and a mirror ball in a mirror box"""
    L = 20.0
    ops = gen.box(g, L, "mirror") + [dict(act="refract", k="sphere", c=[6, 5, 0], R=5.0, index=1.5), dict(act="mirror", k="sphere", c=[-8, 3, 4], R=4.0),
                                     dict(act="refract", k="solid", c=[0, -8, 0], prims=[dict(shape="sphere", c=[0, -8, 0], R=6.0), dict(shape="sphere", c=[3, -8, 0], R=6.0)],
                                          tree=dict(op="difference", l=dict(op="leaf", i=1), r=dict(op="leaf", i=2)), index=1.4),
                                     detector([0, 19.5, 0], [0, -1, 0], 4.0)]
    return ops, bundle(g, 2, 1.0, 4), 300


ALL = [czerny, monochromator, relay, telescope, projector, ground, balls, corner, resonator, newton, periscope, maze]
OF = {"C10": [czerny, resonator, newton], "C11": [ground, balls, maze, resonator], "C12": [monochromator, relay, telescope, projector, periscope],
      "C13": [czerny, monochromator], "C14": [czerny, monochromator, relay, projector, ground, newton, periscope], "C08": [ground, maze],
      "C27": [ground, balls, relay, corner, resonator, periscope, maze]}


def moved(g, ops, rays, D):
    """the whole instrument somewhere else, turned, larger or smaller"""
    s = float(g.choice([1, 1, 1, 0.1, 10]))
    Q = np.eye(3) if g.random() < 0.25 else np.linalg.qr(g.normal(size=(3, 3)))[0]
    t = np.zeros(3) if g.random() < 0.3 else g.uniform(-200, 200, size=3)

    def pt(p):
        return list(map(float, s * (Q @ np.array(p, dtype=float)) + t))

    def way(v):
        return list(map(float, Q @ np.array(v, dtype=float)))
    out = []
    for o in ops:
        o = dict(o)
        for k in ("n", "tan", "dmd"):
            if k in o:
                o[k] = way(o[k])
        if "c" in o:
            o["c"] = pt(o["c"])
        for k in ("R", "h", "w", "f"):
            if k in o:
                o[k] = float(s * o[k])
        if "prims" in o:
            o["prims"] = [dict(p, c=pt(p["c"]), R=float(s * p["R"]), **({"a": way(p["a"])} if "a" in p else {})) for p in o["prims"]]
        out.append(o)
    return out, [(pt(p), way(d), at) for p, d, at in rays], float(s * D)


def instrument(g, own=None):
    kinds = OF.get(own, ALL)
    return moved(g, *kinds[int(g.integers(len(kinds)))](g))
