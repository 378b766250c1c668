--------------------------------- MODULE Maze --------------------------------
(* The ray tracer on the integer lattice.                                   *)
(*                                                                          *)
(* An abstraction of Tracer in plain integers, small enough for exhaustive  *)
(* exploration: rays run along the coordinate axes between lattice points,  *)
(* flat optics are perpendicular to them or tilted by 45 degrees, and balls,*)
(* cylinders and solids are crossed through their middle.  What happens     *)
(* outside this world (a ball hit off its centre, say) is "off the map"     *)
(* and not described here.  MC_Maze checks that every behaviour of Maze is  *)
(* a behaviour of Tracer, which describes the same optics with real numbers.*)
(*                                                                          *)
(* Optics are the records of Optics.tla with integers for real numbers:     *)
(* c, n, tan, dmd integer triples; R, h, w, f integers.                     *)
EXTENDS Integers, Sequences, FiniteSets

ZDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
ZAdd(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
ZSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
ZScale(k, a) == << k * a[1], k * a[2], k * a[3] >>
ZNeg(a) == ZScale(-1, a)
ZAt(p, d, t) == ZAdd(p, ZScale(t, d))
ZSq(a) == ZDot(a, a)
ZAbs(i) == IF i < 0 THEN -i ELSE i
ZMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Axis == {<< 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>}
Axes == Axis \cup {ZNeg(a) : a \in Axis}
Across(d) == {a \in Axes : ZDot(a, d) = 0}

\* d reflected at a surface with normal n (axis or diagonal)
ZMirror(d, n) == LET k == 2 * ZDot(d, n) IN
                 << d[1] - (k * n[1]) \div ZSq(n), d[2] - (k * n[2]) \div ZSq(n), d[3] - (k * n[3]) \div ZSq(n) >>

(* ------------------------------ where ------------------------------ *)
\* distance along the ray to the plane of a flat optic (n is a multiple of an axis, or a diagonal)
FlatT(o, p, d) == (ZDot(d, o.n) * ZDot(ZSub(o.c, p), o.n)) \div (ZDot(d, o.n) * ZDot(d, o.n))

InAperture(o, q) ==
  LET r == ZSub(q, o.c) IN
  IF o.k = "rect"
  THEN LET u == ZDot(r, o.tan) IN 4 * u * u <= o.h * o.h * ZSq(o.tan)
                                  /\ 4 * (ZSq(r) * ZSq(o.tan) - u * u) <= o.w * o.w * ZSq(o.tan)
  ELSE ZSq(r) < o.R * o.R                  \* disc, and the vertex disc of a concave mirror

\* on the edge of the aperture
OnRim(o, q) ==
  LET r == ZSub(q, o.c) IN
  IF o.k = "rect"
  THEN LET u == ZDot(r, o.tan) IN InAperture(o, q) /\ (4 * u * u = o.h * o.h * ZSq(o.tan)
                                                     \/ 4 * (ZSq(r) * ZSq(o.tan) - u * u) = o.w * o.w * ZSq(o.tan))
  ELSE ZSq(r) = o.R * o.R

\* a primitive seen from a ray: middle of the chord, squared distance of the ray from the centre (or axis)
ZCentral(s, p, d) ==
  LET q == ZSub(s.c, p)
      w == IF s.shape = "sphere" THEN q ELSE ZSub(q, ZScale(ZDot(q, s.a), s.a))
      k == ZDot(w, d)
  IN  [mid |-> k, off |-> ZSq(w) - k * k, along |-> s.shape # "sphere" /\ ZDot(s.a, d) # 0, dist |-> ZSq(w)]

\* a primitive is on the map when it is crossed through the middle, missed clearly, or passed along its axis
PrimOnMap(s, p, d) == LET z == ZCentral(s, p, d) IN
                      IF z.along THEN z.dist # s.R * s.R ELSE z.off = 0 \/ z.off > s.R * s.R
PrimEnds(s, p, d) == LET z == ZCentral(s, p, d) IN
                     IF z.along \/ z.off # 0 THEN {} ELSE {z.mid - s.R, z.mid + s.R}
\* is the point half a step from the distance y / 2 inside? (y odd)
PrimIn(s, p, d, y) == LET z == ZCentral(s, p, d) IN
                      IF z.along THEN z.dist < s.R * s.R
                      ELSE z.off = 0 /\ 2 * (z.mid - s.R) < y /\ y < 2 * (z.mid + s.R)

RECURSIVE ZMember(_, _)
ZMember(tree, in) ==
  CASE tree.op = "leaf"       -> in[tree.i]
    [] tree.op = "union"      -> ZMember(tree.l, in) \/ ZMember(tree.r, in)
    [] tree.op = "intersect"  -> ZMember(tree.l, in) /\ ZMember(tree.r, in)
    [] tree.op = "difference" -> ZMember(tree.l, in) /\ ~ZMember(tree.r, in)
SolidIn(o, p, d, y) == ZMember(o.tree, [i \in 1 .. Len(o.prims) |-> PrimIn(o.prims[i], p, d, y)])

Ball(o) == [shape |-> "sphere", c |-> o.c, R |-> o.R]
AlongOrAgainst(a, d) == a = d \/ a = ZNeg(d)

\* distances at which the optic is met by a ray that nothing else stops
Crossings(o, p, d) ==
  CASE o.k \in {"disc", "rect", "concave"} ->
         IF ZDot(d, o.n) = 0 THEN {} ELSE {t \in {FlatT(o, p, d)} : t > 0 /\ InAperture(o, ZAt(p, d, t))}
    [] o.k = "sphere"  -> {t \in PrimEnds(Ball(o), p, d) : t > 0}
    [] o.k = "solid"   -> {t \in UNION {PrimEnds(o.prims[i], p, d) : i \in 1 .. Len(o.prims)} :
                             t > 0 /\ SolidIn(o, p, d, 2 * t - 1) # SolidIn(o, p, d, 2 * t + 1)}
    [] o.k = "ignored" -> {}

OnMap(o, p, d) ==
  CASE o.k = "sphere"  -> PrimOnMap(Ball(o), p, d)
    [] o.k = "solid"   -> \A i \in 1 .. Len(o.prims) : PrimOnMap(o.prims[i], p, d)
    [] o.k = "concave" -> \A t \in Crossings(o, p, d) : ZAt(p, d, t) = o.c      \* through the vertex
    [] o.k = "ignored" -> TRUE
    [] OTHER -> \A t \in Crossings(o, p, d) :
                  CASE o.act = "ideal"     -> ZAt(p, d, t) = o.c                \* through the middle
                    [] o.act = "focus"     -> ZAt(p, d, t) = o.c /\ AlongOrAgainst(o.n, d)
                    [] o.act = "collimate" -> AlongOrAgainst(o.n, d)
                    [] OTHER -> TRUE

(* ------------------------------ what ------------------------------- *)
ZTurned(d) == [dir |-> d, absorbed |-> FALSE]
ZAbsorbed(d) == [dir |-> d, absorbed |-> TRUE]
Act(o, ray) ==
  LET d == ray.dir IN
  IF ray.type = "faerie_fire" THEN ZAbsorbed(d)
  ELSE CASE o.act \in {"detector", "block"} -> ZAbsorbed(d)
         [] o.act = "dmd"     -> ZTurned(ZMirror(d, o.dmd))
         [] o.act = "mirror"  -> ZTurned(IF o.k \in {"sphere", "solid"} THEN ZNeg(d) ELSE ZMirror(d, o.n))
         [] o.act = "grating" -> IF ray.order = 0 THEN ZTurned(ZMirror(d, o.n)) ELSE ZAbsorbed(d)    \* groove density too high
         [] o.act = "refract" -> ZTurned(d)
         [] OTHER             -> ZTurned(d)                                      \* lenses on the map leave the ray undeviated

(* --------------------------- the tracer ---------------------------- *)
ZLaunch(p, d, order, type) ==
  [pos |-> p, dir |-> d, first |-> d, blocked |-> FALSE, path |-> << p >>, via |-> << 0 >>, order |-> order, type |-> type]
ZRun(D, cap) == [on |-> TRUE, rem |-> D, cap |-> cap, cnt |-> 0]
ZFinished(ray, run) == run.rem <= 0 \/ (run.cap >= 0 /\ run.cnt >= run.cap) \/ ray.blocked

\* the optics met within the budget, with their distances
ZMet(optics, ray, rem) == {x \in UNION {{<< t, i >> : t \in Crossings(optics[i], ray.pos, ray.dir)} : i \in 1 .. Len(optics)} :
                             x[1] <= rem}
\* the nearest, the first listed one of a tie
ZFirst(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
ZMove(ray, q, id) == [ray EXCEPT !.pos = q, !.path = Append(@, q), !.via = Append(@, id)]

\* the next state <<ray, run, optic or 0>>
ZStep(optics, ray, run) ==
  LET S == ZMet(optics, ray, run.rem) IN
  IF S = {} THEN << ZMove(ray, ZAt(ray.pos, ray.dir, run.rem), 0), [run EXCEPT !.rem = 0], 0 >>
  ELSE LET x == ZFirst(S)
           out == Act(optics[x[2]], ray)
       IN  << [ZMove(ray, ZAt(ray.pos, ray.dir, x[1]), optics[x[2]].id) EXCEPT !.dir = out.dir, !.blocked = out.absorbed],
              [run EXCEPT !.rem = @ - x[1], !.cnt = @ + 1], x[2] >>
=============================================================================
