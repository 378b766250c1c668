"""Replays behaviours of the specification's models in the real code.

A model is a TLA+ module whose every finished behaviour TLC prints as one JSON record.  replay() runs the same
operations in the code and compares what they leave behind; a difference is named by the property it belongs to.
"""
import collections
import zlib
import numpy as np
from multiprocessing import get_context

WORKERS = 8
PER = 200


class Model:
    """module: the TLA+ module; quick / thorough: what it explores (read by the module from the file named by MODEL);
    one(rec) -> (violated clauses, what was observed)"""
    def __init__(self, module, one, quick=None, thorough=None, limit=None):
        self.module, self.one, self.quick, self.thorough, self.limit = module, one, quick, thorough or quick, limit
        self.samples = []

    def replay(self, prop, recs):
        # one of every distinct behaviour, in an order that does not depend on TLC's scheduling
        recs = sorted(recs, key=lambda r: zlib.crc32(repr(r).encode()))
        if self.limit and len(recs) > self.limit:
            recs = recs[:self.limit]
        self.samples = recs[:1]
        chunks = [(self, prop, recs[k:k + PER]) for k in range(0, len(recs), PER)]
        with get_context("fork").Pool(WORKERS) as pool:
            bad = [b for part in pool.imap(_chunk, chunks) for b in part]
        return len(recs), bad


def _chunk(job):
    import record
    model, prop, recs = job
    bad = []
    for r in recs:
        if record.HANGS >= 3:
            break
        try:
            with record.limit(record.SECONDS):
                clauses, what = model.one(r)
        except record.Hang:
            record.HANGS += 1
            clauses, what = [prop + ":does not return"], None
        except Exception as x:
            clauses, what = [prop + ":raised %s" % type(x).__name__], str(x)
        clauses = sorted({c for c in clauses if c.startswith(prop + ":")})
        if clauses:
            bad.append(dict(model=model.module, clauses=clauses, behaviour=r, observed=what))
    return bad


# ------------------------------------------------------------------- MC_Maze
NEAR = 1e-9
TURN = {"mirror": ["C09:wrong reflection"], "dmd": ["C09:wrong reflection at micromirrors"], "ideal": ["C12:wrong direction after ideal lens"],
        "collimate": ["C12:wrong direction after collimator"], "focus": ["C12:wrong direction after focuser"],
        "grating": ["C13:wrong diffraction"], "refract": ["C11:wrong refraction"]}
WHERE = {"disc": ["C05:flat optic met at the wrong place"], "rect": ["C05:flat optic met at the wrong place"],
         "concave": ["C10:concave mirror met at the wrong place"], "sphere": ["C06:sphere met at the wrong place"],
         "solid": ["C08:solid met at the wrong place"]}
REVERSIBLE = {"mirror", "ideal", "refract", "annotation", "window"}


def maze_optic(o):
    f = lambda v: [float(x) for x in v]
    d = dict(o)
    for k in ("c", "n", "tan", "dmd"):
        if k in d:
            d[k] = f(d[k])
    if "prims" in d:
        d["prims"] = [{k: (f(v) if isinstance(v, list) else v) for k, v in p.items()} for p in d["prims"]]
    d["index"] = 1.5
    return d


def turned(o):
    return TURN.get(o["act"], ["C04:absorbed ray turned"]) + (["C10:wrong reflection at curved mirror"] if o["act"] == "mirror" and
                                                              o["k"] in ("concave", "sphere") else [])


def met(o):
    return WHERE[o["k"]] + (["C10:convex mirror met at the wrong place"] if o["k"] == "sphere" and o["act"] == "mirror" else [])


def maze(rec):
    import optics3d as O
    import world as W
    descr = [maze_optic(o) for o in rec["world"]]
    for k, o in enumerate(descr):                     # a caller's whole numbers are floats or integers
        o["int"] = (len(rec["ops"]) + len(descr) + k) % 2 == 1
    kind = [float, int][rec["ops"][0]["p"][0] % 2]
    optics = [W.build(o) for o in descr]
    byid = {o["id"]: o for o in descr}
    rays = []
    results = collections.defaultdict(list)
    first_ok = False
    for op in rec["ops"]:
        if op["op"] == "launch":
            rays.append((O.Ray(np.array(op["p"], dtype=kind), np.array(op["d"], dtype=kind), wavelength=500,
                               order=op["order"], type=op["type"]), op))
            continue
        ray, start = rays[op["r"] - 1]
        if op["op"] == "set":
            ray.order = op["order"]
            continue
        if op["op"] == "fly":
            ray.fly(op["D"])
        else:
            ray.run(op["D"], [] if op["op"] == "bare" else optics, **({} if op["cap"] < 0 else dict(max_interactions=op["cap"])))
        got = np.array(ray.get_plot_repr(), dtype=float)
        rows = [[o["id"], [list(map(float, r)) for r in q.hit_data]] for o, q in zip(descr, optics) if o["act"] == "detector"]
        seen = dict(path=got.tolist(), dir=list(map(float, ray.direction)), blocked=bool(ray.blocked), hits=rows,
                    position=list(map(float, ray.position)))
        bad = maze_compare(op, start, got, seen, byid)
        key = (tuple(start["p"]), tuple(start["d"]), start["order"], start["type"])
        results[key].append((op["r"], op["D"], op.get("cap"), seen["path"], seen["dir"], seen["blocked"]))
        if bad:
            same = [x for x in results[key][:-1] if x[0] != op["r"] and x[1:3] == (op["D"], op.get("cap"))]
            if same and same[0][3:] != (seen["path"], seen["dir"], seen["blocked"]):
                bad.append("C15:the same ray takes another path the second time")
            if op["r"] == 2 and first_ok and rec["ops"][2]["op"] == "launch" and all(o["act"] in REVERSIBLE for o in descr) \
                    and start["p"] == rec["ops"][1].get("path", [None])[-1]:
                bad.append("C27:path not retraced")
            return bad, dict(op=op, observed=seen)
        first_ok = True
    return [], None


def maze_compare(op, start, got, seen, byid):
    P, via = op["path"], op["via"]
    bad = []
    if got.ndim != 2 or got.shape[1] != 3 or not np.all(np.isfinite(got)) or not np.all(np.isfinite(seen["dir"])):
        return ["C16:not finite", "C01:trajectory is not a sequence of points"]
    if abs(np.linalg.norm(seen["dir"]) - 1) > NEAR:
        bad.append("C16:not a unit direction")
    if np.abs(np.array(seen["position"]) - got[-1]).max() > NEAR:
        bad.append("C01:position is not the end of the trajectory")
    if op["op"] == "fly":
        if got.shape != np.shape(P) or np.abs(got - P).max() > NEAR:
            bad.append("C01:a flight does not take the ray the distance along its direction")
        if np.abs(np.array(seen["dir"]) - op["dir"]).max() > 1e-7:
            bad.append("C01:direction changed without interaction")
        if seen["blocked"] != op["blocked"]:
            bad.append("C04:wrong absorption")
        return bad
    if op["op"] == "bare":
        byid = {}
    n = min(len(P), len(got))
    i = next((k for k in range(n) if np.abs(got[k] - P[k]).max() > NEAR), None)
    if i == 0:
        bad.append("C01:trajectory does not start at the launch point")
    elif i is not None:
        e, g = np.array(P[i], dtype=float) - P[i - 1], got[i] - got[i - 1]
        le, lg = np.linalg.norm(e), np.linalg.norm(g)
        if lg == 0:
            bad.append("C01:leg without length")
        elif np.abs(e / le - g / lg).max() > 1e-7:
            bad += turned(byid[via[i - 1]]) if via[i - 1] in byid else ["C01:leg does not follow the ray's direction"]
        else:
            bad.append("C03:leg does not end at the nearest surface")
            if via[i] in byid:
                bad += met(byid[via[i]])
            else:
                bad += [c for o in byid.values() if o["k"] != "ignored" for c in met(o)]
                if lg > le + NEAR:
                    bad.append("C02:travelled beyond the budget")
                elif i == len(got) - 1 and not seen["blocked"]:
                    bad.append("C02:stopped before the budget was used up")
    elif len(got) > len(P):
        bad.append("C04:absorbed ray moved" if op["blocked"] else
                   "C04:moved on after the last allowed interaction" if op["cap"] >= 0 else "C02:travelled beyond the budget")
        if np.abs(got[len(P)] - got[len(P) - 1]).max() <= NEAR:
            bad.append("C01:leg without length")
    elif len(got) < len(P):
        bad += ["C02:stopped before the budget was used up"]
        if seen["blocked"]:
            o = byid.get(via[len(got) - 1])
            bad += ["C13:wrong decision whether the order propagates"] if o and o["act"] == "grating" else ["C04:wrong absorption"]
    else:
        o = byid.get(via[-1])
        if seen["blocked"] != op["blocked"]:
            bad += ["C13:wrong decision whether the order propagates"] if o and o["act"] == "grating" else ["C04:wrong absorption"]
        if np.abs(np.array(seen["dir"]) - op["dir"]).max() > 1e-7:
            bad += (["C04:profiling ray turned"] if start["type"] == "faerie_fire" else turned(o)) if o else ["C01:direction changed without interaction"]
        want = collections.defaultdict(list)
        for h in op["hits"]:
            want[h["id"]].append(h["at"])
        for id, rows in seen["hits"]:
            if len(rows) != len(want[id]) or any(len(r) != 4 or np.abs(np.array(r[:3]) - w).max() > NEAR or r[3] != 500
                                                 for r, w in zip(rows, want[id])):
                bad.append("C14:wrong detector record")
    return bad


# ------------------------------------------------------------------ MC_Trees
def trees(rec):
    import general_optics as G
    from tree_suites import Tree
    t = Tree()
    for o in rec["ops"]:
        if o["op"] == "new":
            t.new(o["key"])
        elif o["op"] == "set":
            t.set(o["n"], o["key"])
        else:
            t.insert(o["n"], o["op"] == "left", o["key"])
    seen = t.observe()
    bad = []
    if [x["key"] for x in seen] != [x["key"] for x in rec["st"]]:
        bad.append("C18:wrong value of a node")
    if [(x["l"], x["r"]) for x in seen] != [(x["l"], x["r"]) for x in rec["st"]]:
        bad.append("C18:wrong shape of the tree")
    texts = [dict(n=p["n"], text=str(G.postOrderEval(t.nodes[p["n"] - 1]))) for p in rec["prints"]]
    if texts != rec["prints"]:
        bad.append("C18:wrong expression printed")
    return bad, dict(nodes=seen, prints=texts)


# ----------------------------------------------------------------- MC_Solids
def solids(rec):
    import optics3d as O
    import general_optics as G
    import world as W
    bad = []
    prims = [W.build_prim(p, [float, int][(len(rec["prims"]) + k) % 2]) for k, p in enumerate(rec["prims"])]
    tree = W.build_tree(rec["tree"], prims)
    body = O.Compound(tree, surface_behavior="refract", index=1.5)
    wrong = []
    for k, x in enumerate(rec["shots"]):
        p, d = np.array(x["p"], dtype=float), np.array(x["d"], dtype=float)
        ray = O.Ray(p, d)
        if k % 2:
            hit, pt, n, outside = body.test_intersect(ray)
            inside = not outside
        else:
            hit, pt, _, n, _, count = G.test_tree_intersect(tree, ray)
            inside = count % 2 == 1
        b = []
        if bool(hit) != (x["t"] > 0):
            b.append("C08:boundary of the solid not reported" if x["t"] else "C08:hit reported where membership does not change")
        elif hit:
            if np.abs(pt - (p + x["t"] * d)).max() > NEAR:
                b.append("C08:boundary reported at the wrong place")
            else:
                if abs(abs(np.dot(n, d)) - 1) > NEAR or abs(np.linalg.norm(n) - 1) > NEAR:
                    b.append("C08:wrong normal")
                if bool(inside) != x["inside"]:
                    b.append("C08:wrong inside verdict")
        if bool(G.test_tree_point(tree, p)) != x["inside"]:
            b.append("C07:wrong membership of a point")
        if b:
            bad += b
            wrong.append(dict(shot=x, hit=bool(hit), pt=None if pt is None else list(pt)))
    for k, inside in enumerate(rec["line"]):
        pt = np.array([0, 0, (2 * k + 3) / 2 - 10])
        if bool(G.test_tree_point(tree, pt)) != inside:
            bad.append("C07:wrong membership of a point")
        if O.get_index_at_point([O.Annotation(pt, np.array([0., 0, 1]), "x"), body], pt) != (1.5 if inside else 1.0):
            bad.append("C07:wrong refractive index at a point")
    return bad, wrong[:3]


# ------------------------------------------------------------------ MC_Files
def files(rec):
    import os
    import shutil
    import general
    from files_suites import scratch, open_up, listing, in_child
    top = scratch()
    path = lambda at: os.path.join(top, *("".join(n) for n in at))
    try:
        for x in sorted(rec["fs"], key=lambda x: len(x["at"])):
            p = path(x["at"])
            if x["kind"] == "dir":
                os.mkdir(p)
            elif x["kind"] == "file":
                open(p, "w").close()
            else:
                os.symlink(dict(to_file=os.path.join(top, "O", "k.x"), to_folder=os.path.join(top, "O"),
                                to_nothing=os.path.join(top, "O", "missing.x"), to_itself=p)[x["to"]], p)
        open_up(top)

        def calls():
            for c in rec["calls"]:
                general.delete_files_with_extension(path(c["folder"]), "".join(c["ext"]), c["deep"])
        msg = in_child(calls)
        after = {("/".join("".join(map(chr, n)) for n in x["at"]), x["kind"]) for x in listing(top)}
    finally:
        shutil.rmtree(top, ignore_errors=True)
    name = lambda x: ("/".join("".join(n) for n in x["at"]), x["kind"])
    bad = []
    if msg != "ok":
        bad.append("C21:" + msg)
    if any(name(x) in after for x in rec["gone"]):
        bad.append("C21:matching file left")
    if any(name(x) not in after for x in rec["sure"]):
        bad.append("C21:something else removed")
    if after - {name(x) for x in rec["fs"]}:
        bad.append("C21:something appeared or changed")
    return bad, sorted(after)


# ------------------------------------------------------------------ MC_Laws
LAW = dict(mirror="C09:wrong reflection", snell="C11:wrong refraction", lens="C12:wrong direction after ideal lens",
           grating="C13:wrong diffraction")


def laws(rec):
    import optics3d as O
    import Shapes.shapes as S
    import general_optics as G
    from enc import value
    x, law = rec["x"], rec["law"]
    n = np.array(x["n"], dtype=float)
    nu = n / np.linalg.norm(n)
    c = np.array([1.0, -2.0, 3.0])
    base = lambda: c.copy()
    wl, order = x.get("wl", 532), x.get("order", 0)
    if law == "lens":
        P = np.array([[1, 0, 0], [0, 1, 0]] if n[0] == 0 and n[1] == 0 else
                     [[n[1], -n[0], 0], [n[0] * n[2], n[1] * n[2], -(n[0] ** 2 + n[1] ** 2)]], dtype=float)
        q = c + x["q"][0] * P[0] + x["q"][1] * P[1]
        start = c + np.array(x["o"], dtype=float)
        tries = [(O.Lens(base(), normal=n, shape="spherical_biconvex", D=40, f=x["f"], type="ideal"), start, q - start)]
    else:
        d = np.array(x["d"], dtype=float)
        du = d / np.linalg.norm(d)
        away = c - 3 * du
        if law == "mirror":
            ball = lambda: c - 2 * nu if np.dot(nu, du) < 0 else c + 2 * nu           # hit from outside
            tries = [(O.Mirror(base(), shape="circular_flat", normal=n, D=20), away, d),
                     (O.Mirror(base(), shape="rectangular_flat", normal=n, tangent=perpendicular(n), h=20, w=20), away, d),
                     (O.Mirror(base(), shape="circular_flat", normal=d, D=20, type="dmd", dmd_normal=n), away, d),
                     (O.Mirror(ball(), shape="circular_convex_spherical", D=4), away, d),
                     (O.Compound(G.BinaryTree(S.Sphere(ball(), R=2)), surface_behavior="reflect"), away, d),
                     (O.Compound(G.BinaryTree(S.InfiniteCylinder(ball(), perpendicular(n), R=2)), surface_behavior="reflect"), c - 0.3 * du, d),
                     (O.Mirror(base(), shape="circular_concave_spherical", normal=n, D=1, f=5), away, d)]
        elif law == "snell":
            index = x["index"][0] / x["index"][1]
            start = away if np.dot(du, nu) < 0 else c - 2 * np.dot(du, nu) * du       # outside, or in the middle of the chord
            tries = [(O.Lens(c - 2 * nu, shape="spherical", D=4, index=index), start, d),
                     (O.Compound(G.BinaryTree(S.Sphere(c - 2 * nu, D=4)), surface_behavior="refract", index=index), start, d)]
        else:
            tries = [(O.Grating(base(), n, np.array(x["tan"], dtype=float), w=20, h=20, G=x["G"]), away, d)]
    want = [(o["absorbed"], np.array([value(k) for k in o["dir"]])) for o in rec["outs"]]
    bad, seen = [], []
    for optic, start, direction in tries:
        ray = O.Ray(start.copy(), direction.copy(), wavelength=wl, order=order)
        ray.run(100, [optic], max_interactions=1)
        seen.append(dict(dir=list(map(float, ray.direction)), blocked=bool(ray.blocked)))
        fit = [w for w in want if w[0] == bool(ray.blocked) and (w[0] or np.abs(w[1] - ray.direction).max() < (1e-6 if len(want) > 1 else 1e-8))]
        if not fit:
            if law == "grating" and not any(w[0] == bool(ray.blocked) for w in want):
                bad.append("C13:wrong decision whether the order propagates")
            else:
                bad.append(LAW[law])
    return bad, dict(observed=seen, allowed=[dict(absorbed=a, dir=list(v)) for a, v in want])


def perpendicular(n):
    return np.cross(n, [0, 0, 1.0]) if n[0] or n[1] else np.array([1.0, 0, 0])


# --------------------------------------------------------------- MC_Numbers
def numbers(rec):
    import general
    x = rec["x"]
    texts = {"".join(map(chr, t)) for t in rec["texts"]}
    if rec["mode"] == "table":
        vals, fmt = rec["values"], "%dd" % x["wide"] if x["wide"] else "d"
        got = {general.prism10widetextarray(v, x["left"], x["right"], x["indent"], fmt) for v in (vals, np.array(vals, dtype=int))}
        return ["C22:table printed wrongly"] if got - texts else [], sorted(got)
    v = ("-" if x["neg"] else "") + "%de%d" % (x["m"], x["e"])
    args = [float(v), np.float64(v)] + ([int(float(v))] if x["e"] >= 0 and abs(float(v)) < 2 ** 53 else [])
    got = {str(general.to_precision(a, x["p"])) for a in args}
    return ["C22:number printed wrongly"] if got - texts else [], sorted(got)


# --------------------------------------------------------------- MC_Vectors
def kinds_of(v):
    """the same direction in several types and lengths"""
    f = [float(a) for a in v]
    return [np.array(f), [a for a in v], tuple(f), np.array(v, dtype=np.int64), np.array(f) * 1024.0, np.array(f) / 3000.0]


def vectors(rec):
    import general_optics as G
    from enc import value
    x, mode = rec["x"], rec["mode"]
    out = [value(r) if isinstance(r, list) and (not r or not isinstance(r[0], list)) else np.array([value(a) for a in r]) for r in rec["out"]]
    bad, seen = [], []
    off = lambda a, b: np.abs(np.asarray(a, dtype=float) - b).max()

    def call(f, *args):
        was = [np.array(a, copy=True) for a in args]
        r = f(*args)
        if any(not np.array_equal(a, b) for a, b in zip(was, args)):
            bad.append(("C20" if f in (G.angle_between, G.project_onto_plane, G.unit_vector, G.distance_between) else "C19") + ":arguments changed")
        return r
    if mode == "turn":
        M = np.array(out)
        th = x["j"] * np.pi / rec["steps"]
        for a in kinds_of(x["a"]):
            R = np.asarray(call(G.rotation_matrix_axis_angle, a, th))
            if R.shape != (3, 3) or not off(R, M) < 1e-11:
                bad.append("C19:rotation by the wrong angle")
                seen.append(R.tolist())
    elif mode == "align":
        u, w = out
        for a in kinds_of(x["a"])[::2] + [np.array(x["a"], dtype=np.int32)]:
            for b in kinds_of(x["b"])[1::2] + [np.array(x["b"], dtype=float)]:
                for f, form in ((G.rotation_matrix2, "column"), (G.rotation_matrix, "row"), (G.rotation_matrix4, "4x4")):
                    R = np.asarray(call(f, a, b), dtype=float)
                    n = 4 if form == "4x4" else 3
                    if R.shape != (n, n) or not np.all(np.isfinite(R)):
                        bad.append("C19:no rotation matrix")
                        continue
                    if n == 4:
                        if off(R[3], [0, 0, 0, 1]) != 0 or off(R[:, 3], [0, 0, 0, 1]) != 0:
                            bad.append("C19:4x4 rotation moves the origin")
                        R = R[:3, :3]
                    if off(R @ R.T, np.eye(3)) > 1e-8:
                        bad.append("C19:aligning matrix is not orthogonal")
                    elif abs(np.linalg.det(R) - 1) > 1e-8:
                        bad.append("C19:aligning matrix is no proper rotation")
                    if off(u @ R if form == "row" else R @ u, w) > 1e-9:
                        bad.append("C19:first direction not carried onto the second")
                    if bad and not seen:
                        seen.append(dict(form=form, a=repr(a), b=repr(b), M=R.tolist()))
    elif mode in ("angle", "signed"):
        n = [np.array(x["n"], dtype=float)] if mode == "signed" else []
        for a in kinds_of(x["a"]):
            for b in (kinds_of(x["b"])[:2] if not n else [np.array(x["b"], dtype=float)]):
                r = float(call(G.angle_between, a if not n else np.array(a, dtype=float), b, *n))
                if not n and not (0 <= r <= np.pi + 1e-12 and abs(np.cos(r) - out[0]) < 1e-11):
                    bad.append("C20:wrong angle")
                if n and not (abs(r) <= np.pi + 1e-12 and abs(np.cos(r) - out[0]) < 1e-11 and abs(np.sin(r) - out[1]) < 1e-11):
                    bad.append("C20:wrong signed angle")
                seen.append(r)
    elif mode == "project":
        for v in kinds_of(x["v"])[:4]:
            for n in kinds_of(x["n"]):
                r = call(G.project_onto_plane, v, n)
                if np.shape(r) != (3,) or not off(r, out[0]) < 1e-11:
                    bad.append("C20:wrong projection onto a plane")
                    seen.append(repr(r))
        for n in kinds_of(x["n"]):
            r = call(G.unit_vector, n)
            if np.shape(r) != (3,) or not off(r, out[1]) < 1e-12:
                bad.append("C20:wrong unit vector")
                seen.append(repr(r))
    else:
        for k in range(4):
            a, b = kinds_of(x["a"])[k], kinds_of(x["b"])[k]
            if not k % 3:
                r = float(call(G.distance_between, a, b))
                if not abs(r - out[0]) < 1e-11:
                    bad.append("C20:wrong distance")
                    seen.append(r)
    return sorted(set(bad)), seen[:3]


# --------------------------------------------------------------- MC_Signals
def signals(rec):
    import general
    from enc import value
    x, mode = rec["x"], rec["mode"]
    want = np.array([value(v) for v in rec["out"]])
    bad, seen = [], []

    def same(got, what, tol=1e-9):
        got = np.asarray(got)
        if got.shape != want.shape or got.dtype.kind not in "fiu" or not np.all(np.abs(got - want) <= tol):
            bad.append(what)
            seen.append(repr(got))
    y = x.get("y", [])
    forms = [np.array(y, dtype=float), np.array(y, dtype=np.int64), list(y), tuple(float(v) for v in y)]
    if mode == "colour":
        kw = dict(floor_wave=x["lim"][0], ceiling_wave=x["lim"][1])
        if x["lim"] == [380, 750]:
            kw = {}
        if x["g"] != [4, 5]:
            kw["gamma"] = x["g"][0] / x["g"][1]
        for wl in (x["wl"], float(x["wl"]), np.float64(x["wl"])):
            same(general.wavelength_to_rgb(wl, **kw), "C23:wrong colour", 1e-8)
    elif mode == "savgol":
        for arg in forms:
            kw = {} if not x["deriv"] and x["rate"] == 1 else dict(deriv=x["deriv"]) if x["rate"] == 1 else dict(deriv=x["deriv"], rate=x["rate"])
            try:
                got = general.savitzky_golay(arg, x["window"], x["order"], **kw)
                ok = True
            except Exception:
                if rec["usable"]:
                    raise
                ok = False
            if ok != rec["usable"]:
                bad.append("C24:unusable window accepted")
            elif ok:
                same(np.asarray(got), "C24:wrong filtered value", 1e-8)
            if list(arg) != list(y):
                bad.append("C24:arguments changed")
    elif mode == "average":
        for arg in forms:
            same(general.movingAverageFast(arg, x["N"]), "C24:wrong moving average")
    elif mode == "nearest":
        for arg in forms[:2]:
            i, v = general.find_nearest(arg, x["v"] / 2)
            same([float(i), float(v)], "C24:nearest element not found")
    elif mode == "interp":
        xs, ys = 2.0 ** np.array(x["xs"]), 2.0 ** np.array(x["ys"])
        f = general.log_interp1d(xs, ys)
        for z in (2.0 ** x["z"], 2 ** x["z"], np.array([2.0 ** x["z"]])):
            same(np.ravel(f(z)), "C24:wrong interpolated value")
    else:
        en = general.wavelength_nm_to_energy_eV(x["wl"])
        if not abs(en - want[0]) <= 1e-5 * want[0] or not abs(general.energy_eV_to_wavelength_nm(en) - x["wl"]) < 1e-9 * x["wl"]:
            bad.append("C24:wrong wavelength-energy product")
            seen.append(float(en))
    return sorted(set(bad)), seen[:3]


# --------------------------------------------------------------- MC_Objects
def accepts(f):
    try:
        return f(), True
    except Exception:
        return None, False


def to_polyline(p, pts):
    """distance of a point from a closed line"""
    a = np.array(pts, dtype=float)
    b = np.roll(a, -1, axis=0) - a
    t = np.clip(((p - a) * b).sum(axis=1) / np.maximum((b * b).sum(axis=1), 1e-300), 0, 1)
    return float(np.linalg.norm(a + b * t[:, None] - p, axis=1).min())


def objects(rec):
    import optics3d as O
    import Shapes.shapes as S
    import general
    import general_optics as G
    from enc import value
    import object_suites as V
    x, mode, res = rec["x"], rec["mode"], rec["result"]
    bad, seen = [], []
    must = res["accept"] == "yes"
    f = lambda v: np.array(v, dtype=float)
    c, n0 = np.array([1.0, -2.0, 3.0]), np.array([1.0, 2.0, -2.0])
    if mode == "round":
        for real in (int, float):
            R, D = (real(v[0]) if v else None for v in (x["R"], x["D"]))
            makers = [lambda: S.Sphere(c.copy(), R=R, D=D), lambda: S.Circle(c.copy(), n0.copy(), R=R, D=D),
                      lambda: S.InfiniteCylinder(c.copy(), n0.copy(), R=R, D=D)]
            if R is None:
                makers += [lambda: O.Mirror(c.copy(), normal=n0.copy(), D=D).surfaces[0], lambda: O.Lens(c.copy(), normal=n0.copy(), D=D, f=1.0, type="ideal").surfaces[0],
                           lambda: O.Lens(c.copy(), shape="spherical", D=D).surfaces[0]]
            for m in makers:
                s, ok = accepts(m)
                if ok != must:
                    bad.append("C25:contradicting or missing radius and diameter accepted" if ok else "C25:consistent radius and diameter rejected")
                elif ok and (abs(s.R - value(res["out"][0])) > 1e-9 or abs(s.D - value(res["out"][1])) > 1e-9):
                    bad.append("C25:radius and diameter not completed")
                    seen.append([float(s.R), float(s.D)])
    elif mode == "rectangle":
        for real in (int, float):
            h, w = (real(v[0]) if v else None for v in (x["h"], x["w"]))
            n, t = np.array(x["n"], dtype=real), np.array(x["t"], dtype=real)
            for m in (lambda: S.Rectangle(c, n, t, h=h, w=w), lambda: O.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w),
                      lambda: O.Grating(c, n, t, h=h, w=w, G=600), lambda: O.Detector(c, n, t, h=h, w=w)):
                ok = accepts(m)[1]
                if ok != must:
                    bad.append("C25:invalid rectangle accepted" if ok else "C25:valid rectangle rejected")
    elif mode == "name":
        class Seen:
            def event(self, **kw):
                self.ev = kw
        for k in range(2):
            e = Seen()
            V.one_name(np.random.default_rng([k, 5]), e, x["kind"], x["name"])
            if e.ev["accepted"] != must:
                bad.append("C25:%s %s %s" % (("known", x["kind"], "rejected") if must else ("unknown", x["kind"], "accepted")))
    elif mode == "image":
        angle, y = 0.25, -7.5
        want = sorted((p[0], p[1], round(p[2] * angle / max(1, x["ar"] - 1), 9) + 0.0, p[3]) for p in res["out"])
        for real in (int, float):
            out = G.image_rays(y, size=real(x["size"]), angle=angle, x_res=x["xr"], z_res=x["zr"], angle_res=x["ar"], pattern_d=real(x["d"]))
            o, d, wl = [np.array(v, dtype=float) for v in out]
            if o.shape != (len(want), 3) or d.shape != o.shape or wl.shape != o.shape[:1]:
                bad.append("C17:wrong number of image rays")
                continue
            if np.abs(o[:, 1] - y).max() > 0 or np.abs(np.linalg.norm(d, axis=1) - 1).max() > 1e-12 or np.abs(d[:, 0]).max() > 1e-12:
                bad.append("C17:image ray missing or misplaced")
            got = sorted((a, b, round(float(np.arctan2(v[2], v[1])), 9) + 0.0, int(w)) for (a, _, b), v, w in zip(np.round(o, 9) + 0.0, d, wl))
            if [g[:3] for g in got] != [w[:3] for w in want]:
                bad.append("C17:image ray missing or misplaced")
                seen.append(got[:5])
            elif got != want:
                bad.append("C17:wrong wavelength of an image ray")
                seen.append([(g, w) for g, w in zip(got, want) if g != w][:3])
    elif mode in ("rim", "corners"):
        want = [f([value(v) for v in p]) for p in res["out"]]
        n, cc = f(x["n"]), f(x["c"])
        size = x.get("R", 0) or x["h"] + x["w"]
        if mode == "rim":
            optics = [O.Mirror(cc, shape="circular_flat", normal=n, D=2 * x["R"]), O.Lens(cc, normal=n, D=2 * x["R"], f=5.0, type="ideal")]
        else:
            t, h, w = f(x["t"]), float(x["h"]), float(x["w"])
            optics = [O.Mirror(cc, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w), O.Grating(cc, n, t, h=h, w=w, G=600), O.Detector(cc, n, t, h=h, w=w)]
        for o in optics:
            ax = V.axes()
            before = V.ids(ax.get_children())
            keep = list(ax.get_children())
            o.draw(ax)
            arts = V.drawn(ax, before)
            pts = [p for _, y in arts for p in (y[0] if len(y) and np.ndim(y[0]) == 2 else y)]
            if len(pts) < 4 or not np.all(np.isfinite(pts)):
                bad.append("C26:no outline drawn")
            elif max(to_polyline(p, pts) for p in want) > 1e-2 * size:
                bad.append("C26:outline is not the optic's rim" if mode == "rim" else "C26:drawn rectangle is not the optic's")
                seen.append(np.array(pts).tolist())
            elif mode == "corners" and max(to_polyline(np.array(p), want) for p in pts) > 1e-7 * size:
                bad.append("C26:drawn rectangle is not the optic's")
                seen.append(np.array(pts).tolist())
            elif mode == "rim" and max(max(abs(np.linalg.norm(p - cc) - x["R"]), abs(np.dot(p - cc, n))) for p in pts) > 1e-2 * size:
                bad.append("C26:outline is not the optic's rim")
                seen.append(np.array(pts).tolist())
            del keep
    elif mode == "patch":
        from matplotlib.patches import Polygon
        import general_optics
        want = np.array([[value(v) for v in p] for p in res["out"]])
        off = f(x["c"]) + [0, 0, x["z"]]
        p = Polygon([[float(v) for v in q] for q in x["flat"]])
        general_optics.pathpatch_2d_to_3d(p, z=float(x["z"]), normal=f(x["n"]))
        general_optics.pathpatch_translate(p, tuple(x["c"]))
        got = np.asarray(p._segment3d, dtype=float)[: len(want)]

        def form(pts):                                      # what does not depend on how the figure lies in its plane
            q = pts - off
            n = f(x["n"]) / np.linalg.norm(f(x["n"]))
            return np.concatenate([(q @ q.T).ravel(), (np.cross(q[:, None], q[None]) @ n).ravel(), q @ n])
        if got.shape != want.shape or not np.abs(form(got) - form(want)).max() < 1e-9:
            bad.append("C26:figure changes its form in space")
            seen.append(got.tolist())
    else:
        ax = V.axes()
        want = np.array([[value(v) for v in l] for l in res["out"]])
        for g, l in zip((ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d), x["l"]):
            g([float(v) for v in l])
        general.set_axes_equal(ax)
        got = np.sort(np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]), axis=1)
        if not np.abs(got - want).max() < 1e-9:
            bad.append("C26:axes not given the largest span")
            seen.append(got.tolist())
    return sorted(set(bad)), seen[:3]


def gas(rec):
    """Fermi-Dirac integrals and quantum concentrations on the model's grid."""
    import general
    from enc import value
    import warnings
    warnings.simplefilter("ignore", DeprecationWarning)
    x, out = rec["x"], rec["out"]
    bad, seen = [], []

    def judge(what, got, want, tol):
        got = got[0] if isinstance(got, (tuple, list)) else got
        if np.ndim(got) or not np.isfinite(got) or not abs(got - want) <= tol:
            bad.append("C28:" + what)
            seen.append((what, repr(got), want))
    values = [value(v) for v in out["value"]]
    if rec["mode"] == "gas":
        want = values[0] * 2.0 ** 30
        m, T = x["m"] * 2.0 ** -100, 4.0 ** x["T"]
        for t in (T, int(T)) if T >= 1 else (T,):
            judge("wrong quantum concentration", general.get_nQ(t, m=m), want, 1e-6 * want)
            for n, V in ((1e10, 1), (want / 8, 2.5)):
                s = n * V * 1.38064852e-16 * (2.5 + np.log(want / n))
                judge("wrong entropy", general.sackurTetrode(n, m, V, t), s, 2e-6 * n * V * 1.38064852e-16)
        return sorted(set(bad)), seen[:3]
    eta, j = x["eta"] / rec["parts"], x["twoj"] / 2
    script, roman = [v * 2.0 ** out["q"] for v in values]
    for h in (eta, int(eta)) if eta == int(eta) else (eta,):
        for kw, want, k in ((dict(), roman, 1), (dict(fType="roman"), roman, 1), (dict(fType="script"), script, 0)):
            tol = 1e-8 * want
            if eta < -20:
                tol *= 10
            elif eta > 20:
                tol += 1.001 * value(out["wide"][k])
            else:
                tol += 1e-10 * (1 + roman / script)
            judge("wrong Fermi-Dirac integral" + (" of a dilute gas" if eta < -20 else " of a degenerate gas" if eta > 20 else ""),
                  general.FD_int_num(h, j, **kw), want, tol)
        if j == 0.5:
            judge("wrong approximation", general.FD_int_approx(h, j), roman,
                  (1e-7 if eta < -20 else 1e-6 if eta < -2 or eta > 10 else 1e-4) * roman)
    return sorted(set(bad)), seen[:3]


KINDS = dict(
    mirrors="mirror mirror_back tilt_disc tilt_rect dmd", curved="concave concave_back convex", clear="ball union lens meniscus rod",
    lenses="ideal ideal_back collimate focus", sinks="detector detector_edge detector_corner block blockball",
    solids="shell nothing pipe bore", decoys="beside rim edge_on annotation window", gratings="grating")
KINDS["all"] = " ".join(KINDS.values())
SCRIPTS = "split short caps twice there profile order cross".split()


def conf(kinds, scripts, front=False, reach=(4,), most=2):
    names = [x for k in kinds.split() for x in KINDS.get(k, k).split()]
    return dict(max=most, reach=list(reach), front=[False, True] if front else [False], scripts=scripts.split(),
                kinds=sorted(set(names)))


def register(model):
    def m(prop, kinds, scripts, front=False, deep="mirror tilt_disc ball detector"):
        model(prop, Model("MC_Maze", maze, conf(kinds, scripts, front), conf("all " + kinds, scripts, front)))
        model(prop, Model("MC_Maze", maze, None, conf(deep, scripts, front, most=3)))
    m("C01", "mirrors ball ideal detector beside annotation", "split cross flight")
    m("C02", "mirror tilt_disc ball ideal detector concave union beside", "split short caps open")
    m("C03", "mirror tilt_rect ball lens detector_edge block decoys", "cross split open", front=True, deep="mirror tilt_rect ball beside detector_edge")
    m("C04", "sinks mirror tilt_disc ball grating", "caps profile order flight")
    m("C05", "mirrors sinks beside rim edge_on", "split cross", deep="mirror tilt_rect rim beside detector_edge")
    m("C06", "convex ball blockball shell union", "split there twice", deep="convex ball union")
    m("C08", "solids clear mirror", "split there", deep="shell lens meniscus bore tilt_disc")
    m("C09", "mirrors shell pipe convex concave", "split there", deep="mirrors convex shell")
    m("C10", "curved mirror tilt_disc ideal", "split there twice", deep="curved tilt_disc")
    m("C11", "clear mirror tilt_rect detector", "there twice", front=True, deep="ball lens rod tilt_disc")
    m("C12", "lenses mirror tilt_disc ball", "split there twice", deep="lenses tilt_disc")
    m("C13", "gratings mirrors ball lens", "order split caps orders", deep="grating tilt_rect ball")
    m("C14", "sinks mirror tilt_disc ball", "cross profile twice", deep="detector mirror tilt_disc detector_edge")
    m("C15", "mirror tilt_disc convex ball lens pipe ideal grating detector", "twice cross", deep="mirror tilt_disc ball lens detector")
    m("C16", "mirrors curved clear lenses gratings shell", "split order", deep="tilt_disc dmd ball collimate")
    m("C27", "mirror tilt_disc tilt_rect convex ball ideal shell meniscus window", "there", deep="mirror tilt_disc ball ideal rod")
    model("C18", Model("MC_Trees", trees, dict(modes=["history", "expression"], history=5, expression=3),
                       dict(modes=["history", "expression"], history=6, expression=4)))
    for p in ("C07", "C08"):
        model(p, Model("MC_Solids", solids, dict(leaves=[1, 2, 3], pool=4), dict(leaves=[1, 2, 3], pool=8)))
    model("C08", Model("MC_Solids", solids, None, dict(leaves=[4], pool=4)))
    model("C21", Model("MC_Files", files, dict(calls=1, full=False), dict(calls=1, full=True)))
    model("C21", Model("MC_Files", files, None, dict(calls=2, full=False)))
    for p, law in (("C09", "mirror"), ("C11", "snell"), ("C12", "lens"), ("C13", "grating")):
        model(p, Model("MC_Laws", laws, dict(laws=[law], d=2, n=1), dict(laws=[law], d=3, n=2)))
    model("C22", Model("MC_Numbers", numbers, dict(modes=["number", "table"], m=100, e=6, p=5, n=21),
                       dict(modes=["number", "table"], m=999, e=12, p=7, n=31)))
    model("C19", Model("MC_Vectors", vectors, dict(modes=["turn", "align"], k=1, steps=12, most=26),
                       dict(modes=["turn", "align"], k=2, steps=12, most=50)))
    model("C20", Model("MC_Vectors", vectors, dict(modes=["angle", "signed", "project", "distance"], k=1, steps=12, most=0),
                       dict(modes=["angle", "signed", "project", "distance"], k=2, steps=12, most=0)))
    model("C23", Model("MC_Signals", signals, {"modes": ["colour"], "from": 360, "to": 780, "step": 3, "n": 1, "window": 1, "order": 1},
                       {"modes": ["colour"], "from": 200, "to": 1000, "step": 1, "n": 1, "window": 1, "order": 1}))
    model("C24", Model("MC_Signals", signals, {"modes": ["savgol", "average", "nearest", "interp", "energy"], "from": 1, "to": 1, "step": 1, "n": 4, "window": 6, "order": 3},
                       {"modes": ["savgol", "average", "nearest", "interp", "energy"], "from": 1, "to": 1, "step": 1, "n": 6, "window": 8, "order": 5}))
    model("C25", Model("MC_Objects", objects, dict(modes=["round", "rectangle", "name"], k=1, res=1, d=1),
                       dict(modes=["round", "rectangle", "name"], k=2, res=1, d=1)))
    model("C17", Model("MC_Objects", objects, dict(modes=["image"], k=1, res=4, d=14), dict(modes=["image"], k=1, res=7, d=40)))
    model("C26", Model("MC_Objects", objects, dict(modes=["rim", "corners", "axes", "patch"], k=1, res=1, d=1), dict(modes=["rim", "corners", "axes", "patch"], k=2, res=1, d=1)))
    model("C28", Model("MC_Gas", gas, dict(modes=["fermi", "gas"], parts=1, low=-24, high=24, orders=[-1, 1, 3]),
                       dict(modes=["fermi", "gas"], parts=4, low=-40, high=60, orders=[-1, 1, 3, 5, 7])))
