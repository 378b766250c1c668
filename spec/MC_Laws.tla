------------------------------- MODULE MC_Laws -------------------------------
(* The laws of the interactions, over a grid of directions and parameters.  *)
(*                                                                          *)
(* Optics.tla states what an optic does to a ray by formulas.  Here these   *)
(* are checked against what they are for: a mirror keeps the angle (C09),   *)
(* refraction keeps index times sine and is reversible (C11), an ideal lens *)
(* has an image point (C12), a grating obeys its equation (C13); and the    *)
(* outcomes are printed, to be compared with the code's.                    *)
EXTENDS Optics, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [laws |-> << "mirror", "snell", "lens", "grating" >>, d |-> 2, n |-> 1]

Cube(k) == {v \in [1 .. 3 -> -k .. k] : v # << 0, 0, 0 >>}
Even(v) == \A i \in 1 .. 3 : v[i] % 2 = 0
Dirs(k) == {v \in Cube(k) : ~Even(v)}                     \* every direction once
ZDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
IR(i) == Int2R(i)
IV(v) == << IR(v[1]), IR(v[2]), IR(v[3]) >>

Indices == {<< 3, 2 >>, << 5, 4 >>, << 1, 1 >>, << 2, 1 >>, << 1, 2 >>}
\* two directions in the plane across n
Plane(n) == IF n[1] = 0 /\ n[2] = 0 THEN << << 1, 0, 0 >>, << 0, 1, 0 >> >>
            ELSE << << n[2], -n[1], 0 >>, << n[1] * n[3], n[2] * n[3], -(n[1] * n[1] + n[2] * n[2]) >> >>
Tangents(n) == {Plane(n)[1], Plane(n)[2], << Plane(n)[1][1] + Plane(n)[2][1], Plane(n)[1][2] + Plane(n)[2][2], Plane(n)[1][3] + Plane(n)[2][3] >>}

VARIABLES law, x, over
vars == << law, x, over >>

Cases(l) ==
  CASE l = "mirror"  -> {[n |-> n, d |-> d] : n \in Cube(Conf.n), d \in Dirs(Conf.d)}
    [] l = "snell"   -> {[n |-> n, d |-> d, index |-> i] : n \in Dirs(Conf.n), d \in Dirs(Conf.d), i \in Indices}
    [] l = "lens"    -> {[n |-> n, f |-> f, o |-> o, q |-> q] : n \in Dirs(1), f \in {-2, 1, 3}, o \in Dirs(Conf.d),
                                                               q \in {<< 0, 0 >>, << 1, 0 >>, << -1, 1 >>}}
    [] l = "grating" -> {[n |-> n, tan |-> t, d |-> d, G |-> 600, wl |-> 500, order |-> m] :
                           n \in {<< 0, 0, 1 >>, << 1, -1, 0 >>, << -1, 1, 1 >>}, t \in {0}, d \in Dirs(Conf.d), m \in {-5, -2, -1, 1, 2, 4, 6}}
\* the grating's tangents depend on its normal
Expand(l) == IF l = "grating" THEN UNION {{[c EXCEPT !.tan = t] : t \in Tangents(c.n)} : c \in Cases(l)} ELSE Cases(l)

Init == /\ law \in ToSet(Conf.laws)
        /\ x \in Expand(law)
        /\ CASE law = "lens" -> ZDot(x.o, x.n) # 0
             [] OTHER -> ZDot(x.d, x.n) # 0
        /\ over = FALSE

N == VUnit(IV(x.n))
D == VUnit(IV(x.d))
Index == FDiv(IR(x.index[1]), IR(x.index[2]))
Eta == IF ZDot(x.d, x.n) > 0 THEN Index ELSE FDiv(One, Index)      \* n points outwards
\* the lens stands in the origin; its plane is crossed at Q, coming from the object point O
LensPt == VAdd(VScale(IR(x.q[1]), IV(Plane(x.n)[1])), VScale(IR(x.q[2]), IV(Plane(x.n)[2])))
Lens == [k |-> "disc", act |-> "ideal", c |-> VZero, n |-> IV(x.n), R |-> IR(9), f |-> IR(x.f)]
LensD == VUnit(VSub(LensPt, IV(x.o)))
Grating == [k |-> "rect", act |-> "grating", c |-> VZero, n |-> IV(x.n), tan |-> IV(x.tan), G |-> IR(x.G)]
GRay(d) == [dir |-> d, order |-> IR(x.order), wl |-> IR(x.wl), type |-> "normal"]

Outcomes ==
  CASE law = "mirror"  -> {Turned(Mirrored(D, N))}
    [] law = "snell"   -> RefractOutcomes(D, N, Eta)
    [] law = "lens"    -> {Turned(IdealDir(Lens, LensD, LensPt))}
    [] law = "grating" -> GratingOutcomes(Grating, GRay(D), D)

Done == /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([law |-> law, x |-> x, outs |-> SetToSeq(Outcomes)]))
        /\ UNCHANGED << law, x >>
Spec == Init /\ [][Done]_vars

(* ------------------------------ the laws ---------------------------- *)
Is(l) == law = l /\ over
Rays == {o \in Outcomes : ~o.absorbed}
SameDir(a, b) == VNear(a, b, Tol12)
UnitOut == over => Outcomes # {} /\ \A o \in Rays : Near(VLen(o.dir), One, Tol12)

Reflection == Is("mirror") => LET r == Mirrored(D, N) IN
  /\ Near(FDot(r, N), Opp(FDot(D, N)), Tol12)                         \* the part along the normal is reversed
  /\ VNear(VPerp(r, N), VPerp(D, N), Tol12)                           \* the part in the surface is kept
  /\ SameDir(Mirrored(r, N), D)                                       \* twice is nothing
  /\ SameDir(Mirrored(D, VNeg(N)), r)                                 \* the normal's sense does not matter
  /\ SameDir(Mirrored(VNeg(r), N), VNeg(D))                           \* reversible
Snell == Is("snell") =>
  LET s2 == FMul(Sq(Eta), Sub(One, Sq(FDot(D, N))))
      total == Lt(One, s2)
  IN  \A o \in Outcomes :
        /\ ~o.absorbed
        /\ IF Near(s2, One, Tol9) THEN TRUE
           ELSE IF total
           THEN SameDir(o.dir, Mirrored(D, N))
           ELSE /\ VNear(VPerp(o.dir, N), VScale(Eta, VPerp(D, N)), Tol12)         \* index times sine is kept
                /\ Sign(FDot(o.dir, N)) = Sign(FDot(D, N))                         \* on to the other side
                /\ \E b \in RefractOutcomes(VNeg(o.dir), N, FDiv(One, Eta)) : VNear(b.dir, VNeg(D), Tol9)   \* reversible
OneSnell == Is("snell") => Cardinality(Outcomes) = 1 \/ Near(FMul(Sq(Eta), Sub(One, Sq(FDot(D, N)))), One, Tol9)

\* the image of O: distance f o / (o - f) behind the lens, magnified by minus the ratio of the distances
Imaging == Is("lens") =>
  LET out == IdealDir(Lens, LensD, LensPt)
      ax == Along(N, LensD)
      dist == Opp(FDot(IV(x.o), ax))
      lat == VPerp(IV(x.o), N)
      f == Lens.f
  IN  /\ IsPos(dist)
      /\ IsPos(FDot(out, ax))                                           \* on to the other side
      /\ x.q = << 0, 0 >> => SameDir(out, LensD)                        \* undeviated through the centre
      /\ SameDir(IdealDir(Lens, VNeg(out), LensPt), VNeg(LensD))        \* reversible
      /\ IF Near(dist, f, Tol12)
         THEN SameDir(out, VUnit(VNeg(IV(x.o))))                        \* from the focal plane: parallel to the central ray
         ELSE LET s == FDiv(FMul(dist, f), Sub(dist, f))
                  image == VAdd(VScale(s, ax), VScale(Opp(FDiv(s, dist)), lat))
                  v == VSub(image, LensPt)
              IN  IF VLen(v) = Zero THEN TRUE
                  ELSE /\ VNear(VCross(VUnit(v), out), VZero, Tol10)             \* every ray goes through it
                       /\ Sign(FDot(v, out)) = Sign(s)                            \* ahead when real, behind when virtual
Diffraction == Is("grating") =>
  LET n == Facing(N, D)
      t == VUnit(IV(x.tan))
      across(v) == VPerp(v, t)
      a == across(D)
      rho == VLen(a)
      gml == FMul(FMul(FDiv(IR(x.G), IR(1000000)), IR(x.order)), IR(x.wl))
      sin(v) == VSub(v, VScale(FDot(v, n), n))
  IN  \A o \in Outcomes :
        IF o.absorbed
        THEN Lt(Sub(One, Tol9), Abs(Sub(gml, FDiv(VLen(VSub(a, VScale(FDot(a, n), n))), rho))))
        ELSE LET b == across(o.dir)
                 \* the sines, as vectors in the surface across the grooves; the light comes from -sa
                 sa == VScale(FDiv(One, rho), VSub(a, VScale(FDot(a, n), n)))
                 sb == VScale(FDiv(One, rho), VSub(b, VScale(FDot(b, n), n)))
                 normal == Le(VLen(sa), Tol10)                               \* normal incidence (across the grooves)
                 side == IF normal THEN VUnit(sb) ELSE VUnit(VNeg(sa))
             IN  /\ Near(FDot(o.dir, t), FDot(D, t), Tol12)                  \* along the grooves nothing changes
                 /\ Near(VLen(b), rho, Tol11)
                 /\ Le(Opp(Tol9), FDot(o.dir, n))                            \* stays on its side
                 /\ \/ ~normal /\ Near(Sub(FDot(sb, side), FDot(sa, side)), gml, Tol11)
                    \/ normal /\ Near(VLen(sb), Abs(gml), Tol11)
=============================================================================
