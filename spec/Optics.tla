------------------------------- MODULE Optics -------------------------------
(* Where a ray meets an optic, and what the optic does to it there.         *)
(*                                                                          *)
(* An optic is a record with the fields                                     *)
(*   k   : "disc", "rect", "concave", "sphere", "solid" or "ignored"        *)
(*   act : "mirror", "dmd", "ideal", "collimate", "focus", "grating",       *)
(*         "detector", "block", "refract"                                   *)
(* and the parameters its kind needs: c (centre), n (normal, any length),   *)
(* tan (tangent), R, h, w, f (focal length), index, G (grooves per mm),     *)
(* dmd (micromirror normal), prims and tree (solids).                       *)
(* A ray is a record [pos, dir, wl, order, type, ...].                      *)
EXTENDS Shapes

(* ------------------------------ where ------------------------------ *)
ConcaveMeet(o, p, d, ex) ==
  LET n == VUnit(o.n)
      disc == DiscMeet(o.c, n, o.R, p, d, ex)
      rc == Mul(FromInt(2), o.f)
      centre == VAt(o.c, n, rc)
      z == SphereLine(centre, rc, p, d, ex)
      a0 == IF z.n = 0 THEN "no" ELSE Ahead(z.t0, ex)
      a1 == IF z.n = 0 THEN "no" ELSE Ahead(z.t1, ex)
      d0 == Abs(Sub(z.t0, disc.t))
      d1 == Abs(Sub(z.t1, disc.t))
      second == a0 = "no" \/ (a1 # "no" /\ Lt(d1, d0))
      t == IF second THEN z.t1 ELSE z.t0
      clear == ex \/ a0 # "yes" \/ a1 # "yes" \/ Lt(Tol6, Abs(Sub(d0, d1)))
  IN  IF disc.k = "no" THEN NoHit
      ELSE IF z.n = 0 /\ ~z.near THEN NoHit
      ELSE IF a0 = "no" /\ a1 = "no" /\ ~z.near THEN NoHit
      ELSE LET k == IF z.sure /\ clear /\ a0 # "may" /\ a1 # "may" THEN disc.k ELSE "may"
               pt == VAt(p, d, t)
           IN  [k |-> k, t |-> t, pt |-> pt, n |-> SphereNormal(centre, pt), tol |-> MaxR(z.tol, disc.tol)]

Meet(o, p, d, ex) ==
  CASE o.k = "disc"    -> DiscMeet(o.c, VUnit(o.n), o.R, p, d, ex)
    [] o.k = "rect"    -> RectMeet(o.c, VUnit(o.n), VUnit(o.tan), o.h, o.w, p, d, ex)
    [] o.k = "concave" -> ConcaveMeet(o, p, d, ex)
    [] o.k = "sphere"  -> SphereMeet(o.c, o.R, p, d, ex)
    [] o.k = "solid"   -> SolidMeet(o, p, d, ex)
    [] o.k = "ignored" -> NoHit

(* The surface normal of optic o at a point of its surface (either side). *)
NormalAt(o, m, pt) ==
  CASE o.k = "concave" -> SphereNormal(VAt(o.c, VUnit(o.n), Mul(FromInt(2), o.f)), pt)
    [] o.k = "sphere"  -> SphereNormal(o.c, pt)
    [] o.k = "solid"   -> PrimNormal(o.prims[CHOOSE j \in m.on : TRUE], pt)
    [] OTHER           -> VUnit(o.n)

(* ------------------------------ what ------------------------------- *)
(* The possible outcomes of an interaction: a set of records            *)
(* [dir, absorbed].  There is more than one only in the limiting cases  *)
(* named at each operator.                                              *)
Turned(d) == [dir |-> d, absorbed |-> FALSE]
Absorbed(d) == [dir |-> d, absorbed |-> TRUE]

Mirrored(d, n) == VSub(d, VScale(Mul(FromInt(2), FDot(d, n)), n))
Facing(n, d) == IF IsPos(FDot(n, d)) THEN VNeg(n) ELSE n          \* against the ray
Along(n, d) == IF IsNegative(FDot(n, d)) THEN VNeg(n) ELSE n      \* with the ray

\* Snell's law, eta = index left / index entered
Bent(d, n, eta, s2) ==
  LET c == Opp(FDot(d, n))
  IN  VAdd(VScale(eta, d), VScale(Sub(FMul(eta, c), FSqrt(Sub(One, s2))), n))
RefractOutcomes(d, n0, eta) ==
  LET n == Facing(n0, d)
      c == Opp(FDot(d, n))
      s2 == FMul(Sq(eta), Sub(One, Sq(c)))
      bent == IF Le(s2, One) THEN {Turned(Bent(d, n, eta, s2))} ELSE {}
      \* the limit of total reflection: either, and at the limit itself the ray may leave along the surface
      total == IF Lt(One, Add(s2, Tol9)) THEN {Turned(Mirrored(d, n))} ELSE {}
      limit == IF Near(s2, One, Tol9) THEN {Turned(VUnit(VPerp(d, n)))} ELSE {}
  IN  bent \cup total \cup limit

\* A thin lens adds -r/f to the slope of a ray crossing it at r from its centre.
IdealDir(o, d, pt) ==
  LET n == Along(VUnit(o.n), d)
      den == FDot(n, d)
      r == VSub(pt, o.c)
  IN  IF Lt(den, Tol7) THEN d
      ELSE LET s == << FDiv(d[1], den), FDiv(d[2], den), FDiv(d[3], den) >>
           IN  VUnit(<< Sub(s[1], FDiv(r[1], o.f)), Sub(s[2], FDiv(r[2], o.f)), Sub(s[3], FDiv(r[3], o.f)) >>)
FocusDir(o, d, pt) ==
  LET v == VSub(VAt(o.c, Along(VUnit(o.n), d), o.f), pt)
  IN  VUnit(IF IsNegative(o.f) THEN VNeg(v) ELSE v)

\* sin(beta) = G m lambda - sin(alpha), beta positive towards the side the light comes from
\* (o.Gml is the product of groove density, order and wavelength, a pure number)
GratingOutcomes(o, ray, d) ==
  LET n == Facing(VUnit(o.n), d)
      tn == VUnit(o.tan)
      u == VCross(tn, n)
      along == FDot(d, tn)
      rho == VLen(VPerp(d, tn))
      sa == FDiv(Opp(FDot(d, u)), rho)                  \* sine of the incidence angle
      order == ray.order
      gml == FMul(FMul(FDiv(o.G, Int2R(1000000)), order), ray.wl)
      sb == Sub(gml, Abs(sa))
      sides == IF Near(sa, Zero, Tol9) THEN {1, -1} ELSE {Sign(sa)}
      cb == FSqrt(MaxR(Zero, Sub(One, Sq(sb))))
      out(s) == VAdd(VScale(along, tn), VScale(rho, VAdd(VScale(cb, n), VScale(IF s = 1 THEN sb ELSE Opp(sb), u))))
  IN  IF order = Zero THEN {Turned(Mirrored(d, n))}
      ELSE (IF Lt(Abs(sb), Add(One, Tol9)) THEN {Turned(out(s)) : s \in sides} ELSE {})
           \cup (IF Lt(Sub(One, Tol9), Abs(sb)) THEN {Absorbed(d)} ELSE {})

\* is the ray leaving the refracting body at this crossing?
Leaving(o, m, d, pt) ==
  IF o.k = "sphere" THEN IsPos(FDot(d, SphereNormal(o.c, pt))) ELSE m.start

Interact(o, m, ray, d, pt) ==
  IF ray.type = "faerie_fire" THEN {Absorbed(d)}
  ELSE CASE o.act = "mirror"    -> {Turned(Mirrored(d, NormalAt(o, m, pt)))}
         [] o.act = "dmd"       -> {Turned(Mirrored(d, VUnit(o.dmd)))}
         [] o.act = "ideal"     -> {Turned(IdealDir(o, d, pt))}
         [] o.act = "collimate" -> {Turned(Along(VUnit(o.n), d))}
         [] o.act = "focus"     -> {Turned(FocusDir(o, d, pt))}
         [] o.act = "grating"   -> GratingOutcomes(o, ray, d)
         [] o.act = "detector"  -> {Absorbed(d)}
         [] o.act = "block"     -> {Absorbed(d)}
         [] o.act = "refract"   -> RefractOutcomes(d, NormalAt(o, m, pt),
                                      IF Leaving(o, m, d, pt) THEN o.index ELSE FDiv(One, o.index))

(* ------------------------- the nearest optic ------------------------ *)
(* optics is the sequence of optics in list order.  The answer to "what *)
(* does a ray with rem left to travel do next" is a record              *)
(*   sure : TRUE if there is exactly one answer                         *)
(*   hit  : index of the optic, 0 for free flight                       *)
(*   m    : the meeting                                                 *)
\* t within the remaining distance
Reach(m, rem, ex) == IF ex THEN Tri(TRUE, Le(m.t, rem)) ELSE Tri(~Near(m.t, rem, MaxR(Tol8, m.tol)), Lt(m.t, rem))

Meetings(optics, p, d, ex) == [i \in 1 .. Len(optics) |-> Meet(optics[i], p, d, ex)]

ClassOf(m, rem, ex) == IF m.k = "no" THEN "no"
                       ELSE IF "some" \in DOMAIN m /\ ~m.some THEN "may"
                       ELSE TriAnd(m.k, Reach(m, rem, ex))

\* meetings closer than this may be taken for a tie
Slack(m, q) == Add(Tol8, Add(m.tol, q.tol))

Flight(optics, p, d, rem, ex) ==
  LET ms == Meetings(optics, p, d, ex)
      cl == [i \in 1 .. Len(optics) |-> ClassOf(ms[i], rem, ex)]
      yes == {i \in 1 .. Len(optics) : cl[i] = "yes"}
      \* nearest, the first listed one if there is an exact tie
      best == IF yes = {} THEN 0
              ELSE CHOOSE i \in yes : \A j \in yes : Lt(ms[i].t, ms[j].t) \/ (ms[i].t = ms[j].t /\ i <= j)
      rivals == {j \in 1 .. Len(optics) \ {best} :
                   \/ cl[j] = "may" /\ (best = 0 \/ ~Lt(Add(ms[best].t, Slack(ms[best], ms[j])), ms[j].t)
                                        \/ ("some" \in DOMAIN ms[j] /\ ms[j].k = "may"))
                   \/ ~ex /\ cl[j] = "yes" /\ Near(ms[j].t, ms[best].t, Slack(ms[best], ms[j]))}
  IN  [sure |-> rivals = {}, hit |-> best, m |-> IF best = 0 THEN NoHit ELSE ms[best],
       rivals |-> rivals, ms |-> ms]
=============================================================================
