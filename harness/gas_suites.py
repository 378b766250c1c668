"""Fermi-Dirac integrals and the ideal gas (C28)."""
import warnings
import numpy as np
import general
from enc import num, is_finite
from record import Episode
from text_suites import exact

# (numpy's warnings about its own deprecated names are not ours to judge)
warnings.simplefilter("ignore", DeprecationWarning)


def eta(g):
    x = g.random()
    if x < 0.6:
        e = g.uniform(-20, 20)
    elif x < 0.75:
        e = float(g.choice([-20.0, 20.0, -2.0, 0.0, 3.0, 10.0, 0.5])) + float(g.choice([0, 1e-9, -1e-9, 1e-3, -1e-3]))
    elif x < 0.85:
        e = g.uniform(20, 150)
    elif x < 0.9:
        e = 10 ** g.uniform(2, 9)
    else:
        e = -10 ** g.uniform(1.31, 2.7)
    return int(round(e)) if g.random() < 0.15 else float(e)


def integrals(g, id, own):
    e = Episode(id, own, [])
    for _ in range(2):
        h = eta(g)
        j = int(g.choice([-1, 1, 1, 3, 5, 7]))
        script = bool(g.random() < 0.5)
        kw = {} if not script and g.random() < 0.7 else dict(fType="script" if script else "roman")
        out = e.guard(lambda: general.FD_int_num(h, j / 2, **kw), "FD_int_num()")
        if e.dead:
            break
        y = out[0] if isinstance(out, (tuple, list)) else out
        fin = is_finite(y) and np.ndim(y) == 0
        e.event(e="fermi", eta=num(h), twoj=j, script=script, fin=fin, obs=exact(y if fin else 0))
    return e


def approximations(g, id, own):
    e = Episode(id, own, [])
    for _ in range(2):
        h = eta(g)
        out = e.guard(lambda: general.FD_int_approx(h, 1 / 2), "FD_int_approx()")
        if e.dead:
            break
        y = out[0] if isinstance(out, (tuple, list)) else out
        fin = is_finite(y) and np.ndim(y) == 0
        e.event(e="fermiapprox", eta=num(h), fin=fin, obs=exact(y if fin else 0))
    return e


def gases(g, id, own):
    e = Episode(id, own, [])
    for _ in range(5):
        T = float(10 ** g.uniform(-4, 5)) if g.random() < 0.8 else int(g.integers(1, 100))
        m = float(10 ** g.uniform(-28, -21))
        if g.random() < 0.2:
            m, kw = 9.10938215e-28, {}
        else:
            kw = dict(m=m)
        nq = e.guard(lambda: general.get_nQ(T, **kw), "get_nQ()")
        if e.dead:
            break
        fin = is_finite(nq)
        e.event(e="concentration", T=exact(T), m=exact(m), fin=fin, obs=exact(nq if fin else 0))
        n = float(10 ** g.uniform(0, 30)) if g.random() < 0.7 or not fin else float(nq * np.exp(g.uniform(-5, 3)))
        V = float(10 ** g.uniform(-3, 3)) if g.random() < 0.8 else int(g.integers(1, 9))
        s = e.guard(lambda: general.sackurTetrode(n, m, V, T), "sackurTetrode()")
        if e.dead:
            break
        fin = is_finite(s)
        e.event(e="entropy", T=exact(T), m=exact(m), n=exact(n), V=exact(V), fin=fin, obs=exact(s if fin else 0))
    return e


def register(suite):
    suite("C28", "integrals", integrals, 150, 3000)
    suite("C28", "approximations", approximations, 150, 2000)
    suite("C28", "gases", gases, 200, 3000)
