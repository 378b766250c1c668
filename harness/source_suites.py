"""Ray sources (C17) and colours (C23)."""
import numpy as np
import general
import general_optics as G
import optics3d as O
from enc import num, vec, is_finite
from record import Episode

KEPT = ("position", "direction", "wavelength", "order", "blocked", "type")


def state(r):
    return [np.asarray(getattr(r, k)).tobytes() if k in ("position", "direction") else repr(getattr(r, k)) for k in KEPT] + [len(r.get_plot_repr())]


def profiling(g, id, own):
    e = Episode(id, own, [])
    np.random.seed(int(g.integers(2 ** 31)))
    lst = []
    for _ in range(int(g.integers(1, 4))):
        n = int(g.choice([0, 1, 2, 7, 30])) if g.random() < 0.9 else int(g.choice([320, 320, 1000, 1000, 1001, 1500]))
        R = float(10 ** g.uniform(-2, 3)) if g.random() < 0.8 else int(g.integers(1, 50))
        c = g.uniform(-100, 100, size=3) if g.random() < 0.6 else g.integers(-20, 20, size=3) if g.random() < 0.7 else np.zeros(3)
        if g.random() < 0.3:
            lst.append(O.Ray(g.uniform(-1, 1, size=3), np.array([0, 0, 1.0]), wavelength=600.0))
        old, states = list(lst), [state(r) for r in lst]
        c0 = c.tobytes()
        out = e.guard(lambda: O.add_faerie_fire_rays(lst, R, c, **(dict(N=n) if n != 1000 else {})), "add_faerie_fire_rays()")
        if e.dead:
            break
        kept = len(lst) >= len(old) and all(a is b for a, b in zip(lst, old)) and [state(r) for r in old] == states and c.tobytes() == c0
        new = lst[len(old):] if out is lst or out is None else list(out)[len(old):]
        fin = is_finite(*[[r.position, r.direction] for r in new])
        e.event(e="profiling", fin=fin, same=out is lst, kept=kept, n=n, R=num(R), c=vec(c),
                rays=[dict(pos=vec(r.position), dir=vec(r.direction), type=str(r.type), npath=len(r.get_plot_repr()), blocked=bool(r.blocked))
                      for r in new] if fin else [])
    return e


def sides(g, id, own):
    """many requests: the k-th ray of a request comes from all sides, too"""
    e = Episode(id, own, [])
    np.random.seed(int(g.integers(2 ** 31)))
    n, m = int(g.integers(1, 31)) if g.random() < 0.7 else int(g.integers(31, 200)), 64
    R, c = float(10 ** g.uniform(-2, 3)), g.uniform(-10, 10, size=3)
    counts = np.zeros((n, 3), dtype=int)
    for _ in range(m):
        out = e.guard(lambda: O.add_faerie_fire_rays([], R, c, N=n), "add_faerie_fire_rays()")
        if e.dead:
            return e
        d = np.array([r.direction for r in out], dtype=float).reshape(-1, 3)[:n]
        counts[:len(d)] += d > 0
    e.event(e="sides", m=m, counts=[[int(v) for v in row] for row in counts])
    return e


def bundle(g, id, own):
    e = Episode(id, own, [])
    for _ in range(3):
        ex = bool(g.random() < 0.5)
        xr, zr, ar = (int(g.choice([1, 1, 2, 3, 4, 5])) for _ in range(3))
        if g.random() < 0.05:
            xr, zr, ar = (int(v) for v in g.permutation([int(g.integers(5, 22)), int(g.integers(1, 8)), int(g.integers(1, 4))]))
        kw = {}
        if ex:
            k = 4 * int(np.lcm(max(1, xr - 1), max(1, zr - 1)))
            size = k * int(g.integers(1, 3)) if g.random() < 0.5 else float(k)
            # a grid point on the rim of the disc
            xs = np.linspace(-size / 2, size / 2, xr) if xr > 1 else np.array([0])
            zs = np.linspace(-size / 2, size / 2, zr) if zr > 1 else np.array([0])
            d = 2 * np.hypot(g.choice(xs), g.choice(zs)) if g.random() < 0.7 else float(g.integers(0, k))
            if d != round(d):
                d = float(2 * abs(g.choice(xs)))
            if g.random() < 0.5:
                d = int(d)
            y = int(g.integers(-50, 50))
        else:
            y, size, d = float(g.uniform(-100, 100)), float(10 ** g.uniform(-2, 2)), float(10 ** g.uniform(-2, 2))
        angle = float(g.uniform(0, 1.5)) if g.random() < 0.8 else float(g.choice([0, 0.2, -0.3, 3.0]))
        args = dict(size=size, angle=angle, x_res=xr, z_res=zr, angle_res=ar, pattern_d=d)
        if g.random() < 0.05:                             # the defaults
            args, size, angle, xr, zr, ar, d = dict(x_res=4, z_res=3), 10, 0.2, 4, 3, 3, 5
            for k in list(args):
                if g.random() < 0.5:
                    del args[k]
            xr, zr = args.get("x_res", 11), args.get("z_res", 11)
        out = e.guard(lambda: G.image_rays(y, **args), "image_rays()")
        if e.dead:
            break
        try:
            origins, dirs, waves = ([np.asarray(v, dtype=float) for v in out[0]], [np.asarray(v, dtype=float) for v in out[1]],
                                    [float(v) for v in out[2]])
            fin = is_finite(*origins, *dirs, waves) and all(v.shape == (3,) for v in origins + dirs)
        except (TypeError, ValueError):
            fin = False
        e.event(e="bundle", fin=fin, y=num(y), size=num(size), angle=num(angle), d=num(d), xr=xr, zr=zr, ar=ar, ex=ex,
                origins=[vec(v) for v in origins] if fin else [], dirs=[vec(v) for v in dirs] if fin else [], waves=vec(waves) if fin else [])
    return e


def resolutions(g, id, own):
    e = Episode(id, own, [])
    for _ in range(6):
        r = [int(g.choice([1, 2, 3])) for _ in range(3)]
        for k in range(3):
            if g.random() < 0.3:
                r[k] = int(g.integers(-3, 2))
        try:
            G.image_rays(0.0, x_res=r[0], z_res=r[1], angle_res=r[2])
            ok = True
        except Exception:
            ok = False
        e.event(e="resolution", xr=r[0], zr=r[1], ar=r[2], accepted=ok)
    return e


GAMMAS = [(4, 5), (4, 5), (1, 1), (1, 2), (2, 1), (3, 2), (5, 2), (1, 4)]
NODES = [380, 440, 490, 510, 580, 645, 750]


def colours(g, id, own):
    e = Episode(id, own, [])
    for _ in range(12):
        x = g.random()
        if x < 0.5:
            wl = float(g.uniform(380, 750))
        elif x < 0.7:
            wl = float(g.choice(NODES)) + float(g.choice([0, 0, 1e-9, -1e-9, 0.5, -0.5, 1, -1]))
        elif x < 0.9:
            wl = float(g.uniform(100, 1500))
        else:
            wl = int(g.integers(300, 900))
        kw, lo, hi, ga, gb = {}, 380, 750, 4, 5
        if g.random() < 0.6:
            ga, gb = GAMMAS[int(g.integers(len(GAMMAS)))]
            kw["gamma"] = ga / gb if g.random() < 0.8 or gb != 1 else ga
        if g.random() < 0.5:
            lo = float(g.choice([200, 300, 380, 400, 450])) if g.random() < 0.6 else float(g.uniform(200, 500))
            kw["floor_wave"] = lo
        if g.random() < 0.5:
            hi = float(g.choice([700, 750, 800, 1000])) if g.random() < 0.6 else float(g.uniform(550, 1200))
            kw["ceiling_wave"] = hi
        out = e.guard(lambda: general.wavelength_to_rgb(wl, **kw), "wavelength_to_rgb()")
        if e.dead:
            break
        fin = is_finite(*out) if isinstance(out, (tuple, list, np.ndarray)) else False
        fin = fin and not any(isinstance(v, complex) for v in out)
        e.event(e="colour", fin=fin, wl=num(wl), floor=num(lo), ceil=num(hi), ga=ga, gb=gb, rgb=vec(out) if fin else [])
    return e


def register(suite):
    suite("C17", "profiling", profiling, 250, 3000)
    suite("C17", "sides", sides, 24, 300)
    suite("C17", "bundle", bundle, 300, 4000)
    suite("C17", "resolutions", resolutions, 60, 600)
    suite("C23", "colours", colours, 500, 7000)
