"""Runs the real tracer and records what it does, as events for spec/Trace.tla."""
import contextlib
import io
import signal
import numpy as np
import optics3d as O
from enc import num, vec, is_finite
import world as W


HANGS = 0             # how often a call did not return in time (in this process)
SECONDS = 8


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class limit:
    """raises Hang in the block after some seconds"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Episode:
    """One world, a list of rays, and the events so far."""
    def __init__(self, id, own, optics, ex=False, build=True):
        self.id, self.own, self.ex = id, own, ex
        self.desc = optics
        self.ev = []
        self.rays = []
        self.dead = False
        self.optics = []
        self.scene = []
        if build:
            def make():
                self.optics = [W.build(o) for o in optics]
            self.guard(make, "building the optics")

    def guard(self, f, what):
        """run f; what it raises becomes an event that the specification judges"""
        if self.dead:
            return None
        try:
            with limit(SECONDS), contextlib.redirect_stdout(io.StringIO()):
                return f()
        except Hang:
            global HANGS
            HANGS += 1
            self.ev.append(dict(e="raised", what="does not return from " + what))
        except Exception as x:
            self.ev.append(dict(e="raised", what="raised %s in %s" % (type(x).__name__, what)))
        self.dead = True
        return None

    def launch(self, p, d, wl=532, order=0, type="normal", dt=float, raw=False):
        """raw: p and d are arrays of the caller, used as they are"""
        if dt is int and not raw:
            p, d = W.arr(p, int), W.arr(d, int)
            raw = True
        # every fourth ray or so reports its way on the standard output, which must not change the way
        talk = dict(print_trajectory=True) if (len(self.ev) + len(self.desc) + len(self.id)) % 4 == 3 else {}
        ray = self.guard(lambda: O.Ray(p if raw else np.array(p, dtype=dt), d if raw else np.array(d, dtype=dt),
                                       wavelength=wl, order=order, type=type, **talk), "Ray()")
        if ray is None:
            return None
        self.rays.append(ray)
        o = dict(pos=ray.position, dir=ray.direction, hist=ray.get_plot_repr(), blocked=bool(ray.blocked))
        fin = is_finite(o["pos"], o["dir"], o["hist"])
        m = max(abs(float(x)) for x in d)
        k = 1.0 if 1e-3 <= m <= 1e4 else 2.0 ** -int(np.floor(np.log2(m)))     # a direction has no scale
        self.ev.append(dict(e="launch", p=vec(p), d=vec([float(x) * k for x in d]), wl=num(wl), order=num(order), type=type, fin=fin,
                            obs=dict(pos=vec(o["pos"]), dir=vec(o["dir"]), hist=[vec(x) for x in o["hist"]],
                                     blocked=o["blocked"])))
        return len(self.rays)

    def hits(self):
        return [[vec(row) for row in o.hit_data] if isinstance(o, O.Detector) else [] for o in self.optics]

    def run(self, r, D, cap=None, order=None):
        if r is None or self.dead:
            return
        ray = self.rays[r - 1]
        order = order if order is not None else list(range(1, len(self.optics) + 1))
        lst = [self.optics[k - 1] for k in order]
        if (len(self.ev) + len(self.id)) % 3:          # mostly the same list, changed in place
            self.scene[:] = lst
            lst = self.scene
        elif len(self.ev) % 4 == 1:
            lst = tuple(lst)
        kw = {} if cap is None else dict(max_interactions=float(cap) if (len(self.ev) + cap) % 5 == 0 else cap)
        if (len(self.ev) + len(self.optics)) % 7 == 0:
            D = np.float64(D)
        if not order and len(self.ev) % 2:             # no list at all is an empty one
            self.guard(lambda: ray.run(D, **kw), "Ray.run()")
        else:
            self.guard(lambda: ray.run(D, lst, **kw), "Ray.run()")
        if self.dead:
            return
        self.note("run", r, D=num(min(D, 1e12)), cap=-1 if cap is None or cap == np.inf else int(cap), list=order)

    def fly(self, r, dist):
        if r is None or self.dead:
            return
        ray = self.rays[r - 1]
        self.guard(lambda: ray.fly(dist), "Ray.fly()")
        if not self.dead:
            self.note("fly", r, dist=num(dist))

    def note(self, e, r, **kw):
        ray = self.rays[r - 1]
        def read():
            hist = ray.get_plot_repr()
            fin = is_finite(hist, ray.position, ray.direction) and hist.ndim == 2 and hist.shape[1] == 3 \
                and len(hist) < 5000
            if not fin:
                return dict(fin=False)
            return dict(fin=True, hist=[vec(x) for x in hist], pos=vec(ray.position), dir=vec(ray.direction),
                        blocked=bool(ray.blocked), hits=self.hits())
        got = self.guard(read, "reading the ray")
        if got is not None:
            self.ev.append(dict(e=e, r=r, **kw, **got))

    def relate(self, rel, a, b, tol, clause):
        if not self.dead and a and b:
            self.ev.append(dict(e="relate", rel=rel, a=a, b=b, tol=num(tol), clause=clause))

    def event(self, **kw):
        self.ev.append(kw)

    def json(self):
        return dict(id=self.id, own=self.own, ex=self.ex, optics=[W.spec(o) for o in self.desc], ev=self.ev)
