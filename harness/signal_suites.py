"""Signal and table helpers (C24)."""
import math
import numpy as np
import general
from enc import num, vec, is_finite
from record import Episode


INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def whole(g, n):
    """n whole numbers of any type, over a part of their range or all of it (up to 10^6)"""
    kind = np.dtype(INTS[int(g.integers(len(INTS)))])
    top = min(int(np.iinfo(kind).max), 10**6)
    top = int(g.choice([20, top // 2, top]))
    return g.integers(0 if kind.kind == "u" else -top, top + 1, size=n).astype(kind)


def signal(g, n):
    if g.random() < 0.15:
        return whole(g, n)
    x = g.random()
    if x < 0.25:
        y = g.normal(size=n) * 10 ** g.uniform(-2, 3)
    elif x < 0.5:
        y = np.polyval(g.normal(size=int(g.integers(1, 5))), np.linspace(-1, 1, n)) + g.choice([0, 0.01]) * g.normal(size=n)
    elif x < 0.65:
        y = np.zeros(n)
        y[int(g.integers(n))] = g.choice([1.0, -3.0])
    elif x < 0.8:
        y = np.cumsum(g.normal(size=n))
    else:
        y = g.integers(-20, 20, size=n)
    if g.random() < 0.15:                           # parts of very different size
        a = int(g.integers(n))
        y = np.array(y, dtype=float)
        y[a:a + int(g.integers(1, n + 1))] *= 10 ** g.uniform(3, 12)
    elif g.random() < 0.1:
        y = y * 10 ** g.uniform(-9, -3)
    return y


def filters(g, id, own):
    e = Episode(id, own, [])
    for _ in range(4):
        order = int(g.integers(0, 6))
        w = int(g.choice([3, 5, 5, 7, 9, 11, 15, 21])) if g.random() < 0.7 else int(g.integers(1, 16))
        deriv = int(g.integers(0, order + 1)) if g.random() < 0.5 else 0
        rate = float(g.choice([1, 1, 2, 0.5, 10])) if deriv or g.random() < 0.3 else 1
        n = int(g.choice([w // 2 + 1, w // 2 + 2, w, w + 1, int(g.integers(w // 2 + 1, 40))]))
        if g.random() < 0.04:                       # long windows, long signals
            order, w = int(g.integers(0, 5)), int(g.integers(4, 31)) * 2 + 1
            deriv = min(deriv, order)
            n = int(g.integers(w // 2 + 1, 150))
        elif g.random() < 0.04:
            order, w, deriv = int(g.integers(0, 3)), int(g.integers(2, 6)) * 2 + 1, 0
            n = int(g.integers(1000, 1400))
        y = signal(g, n)
        arg = y
        x = g.random()
        if x < 0.1:
            arg = [v.item() for v in y]
        elif x < 0.2:
            arg = tuple(v.item() for v in y)
        before = np.array(y)
        kw = dict(deriv=deriv, rate=rate) if deriv or g.random() < 0.5 else {}
        if not kw:
            rate = 1
        elif rate == 1 and g.random() < 0.7:
            del kw["rate"]
        usable = w % 2 == 1 and w >= order + 2
        if usable:
            out = e.guard(lambda: general.savitzky_golay(arg, w, order, **kw), "savitzky_golay()")
            if e.dead:
                break
            ok = True
        else:
            try:
                out, ok = general.savitzky_golay(arg, w, order, **kw), True
            except Exception:
                out, ok = None, False
        fin = ok and is_finite(out) and np.ndim(out) == 1
        e.event(e="savgol", window=w, order=order, deriv=deriv, rate=num(rate), y=vec(y), out=vec(out) if fin else [], accepted=ok, fin=bool(fin),
                big=num(max(abs(float(v)) for v in y)))
        e.event(e="untouched", prop="C24", before=[before.tobytes().hex()], after=[np.array(y).tobytes().hex()])
    return e


def averages(g, id, own):
    e = Episode(id, own, [])
    for _ in range(5):
        n = int(g.integers(1, 30)) if g.random() < 0.93 else int(g.integers(30, 400))
        N = int(g.integers(1, n + 1)) if g.random() < 0.8 else n
        y = signal(g, n)
        arg = y if g.random() < 0.7 else [v.item() for v in y]
        out = e.guard(lambda: general.movingAverageFast(arg, N), "movingAverageFast()")
        if e.dead:
            break
        fin = is_finite(out) and np.ndim(out) == 1
        e.event(e="average", x=vec(y), N=N, out=vec(out) if fin else [], fin=bool(fin), big=num(max(abs(float(v)) for v in y)))
    return e


def tables(g, id, own):
    e = Episode(id, own, [])
    for _ in range(6):
        x = g.random()
        if x < 0.4:
            n = int(g.integers(1, 25)) if g.random() < 0.9 else int(g.integers(25, 1500))
            ex = bool(g.random() < 0.6)
            a = g.integers(-9, 10, size=n).astype(float) if ex else g.normal(size=n) * 10 ** g.uniform(-3, 4)
            if ex and g.random() < 0.4:
                a = a.astype(int)
            v = float(g.integers(-20, 21)) / 2 if ex else float(g.choice(a) + g.normal() * g.choice([1e-6, 0.1, 10]))
            if g.random() < 0.3:
                ex, a = True, whole(g, n)
                v = [int(g.integers(-300, 300)), float(g.integers(-600, 600)) / 2, whole(g, 1)[0], int(g.choice(a))][int(g.integers(4))]
            out = e.guard(lambda: general.find_nearest(a, v), "find_nearest()")
            if e.dead:
                break
            idx, found = int(out[0]), float(out[1])
            e.event(e="nearest", x=vec(a), v=num(v), idx=idx, found=num(found), ex=ex)
        elif x < 0.8:
            n = int(g.integers(2, 9))
            xs = np.cumprod(1 + 10 ** g.uniform(-1.5, 0.5, size=n)) * 10 ** g.uniform(-2, 2)
            ys = np.cumprod(np.exp(g.normal(size=n))) if g.random() < 0.7 else 10 ** g.uniform(-2, 2, size=n)
            k = int(g.integers(n - 1))
            q = int(g.integers(1, 5))
            p = int(g.integers(0, q + 1))
            z = float(xs[k] * (xs[k + 1] / xs[k]) ** (p / q))
            z = min(max(z, float(xs[k])), float(xs[k + 1]))
            if g.random() < 0.3:                    # whole numbers, 1, r^2, r^4 ...
                r = int(g.integers(2, 6 if n == 2 else 4))
                n = min(n, 2 if r > 3 else 3)
                kind = INTS[int(g.integers(len(INTS)))]
                xs = np.array([r ** (2 * i) for i in range(n)], dtype=kind)
                ys = g.integers(1, 128, size=n).astype(INTS[int(g.integers(len(INTS)))])
                k, q = int(g.integers(n - 1)), 2
                p = int(g.integers(3))
                z = r ** (2 * k + p)
                z = [z, float(z), kind(z)][int(g.integers(3))]
            i, j = k, k + 1
            if g.random() < 0.3:                      # outside the table: its first or last line goes on
                i, j = (n - 2, n - 1) if g.random() < 0.5 else (1, 0)
                q = int(g.integers(1, 4))
                p = q + int(g.integers(1, 3))
                z = float(xs[i] * (float(xs[j]) / float(xs[i])) ** (p / q))
                if not 0.1 <= float(ys[j]) / float(ys[i]) <= 10:
                    continue
            arr = g.random() < 0.3
            f = e.guard(lambda: general.log_interp1d(xs, ys), "log_interp1d()")
            if e.dead:
                break
            out = e.guard(lambda: f(np.array([z])) if arr else f(z), "the interpolation")
            if e.dead:
                break
            out = np.ravel(out)
            fin = len(out) == 1 and is_finite(out)
            e.event(e="loginterp", out=num(out[0]) if fin else [], y1=num(ys[i]), y2=num(ys[j]), p=p, q=q, fin=fin)
        else:
            wl = float(10 ** g.uniform(0, 4)) if g.random() < 0.8 else int(g.integers(1, 2000))
            en = e.guard(lambda: general.wavelength_nm_to_energy_eV(wl), "wavelength_nm_to_energy_eV()")
            if e.dead:
                break
            back = e.guard(lambda: general.energy_eV_to_wavelength_nm(en), "energy_eV_to_wavelength_nm()")
            if e.dead:
                break
            fin = is_finite(en, back)
            e.event(e="energy", wl=num(wl), energy=num(en) if fin else [], back=num(back) if fin else [], fin=fin)
    return e


def register(suite):
    suite("C24", "filters", filters, 350, 4000)
    suite("C24", "averages", averages, 300, 3000)
    suite("C24", "tables", tables, 400, 5000)
