---------------------------- MODULE JudgeVectors ----------------------------
(* Judges the vector and matrix helpers (properties C19 and C20).           *)
(* A matrix is a sequence of rows.                                          *)
EXTENDS Trig, JudgeGeometry

Basis == << << One, Zero, Zero >>, << Zero, One, Zero >>, << Zero, Zero, One >> >>
MCol(M, j) == [i \in 1 .. Len(M) |-> M[i][j]]
MApply(M, v) == [i \in 1 .. Len(M) |-> FDot(M[i], v)]               \* M v
MTransApply(M, v) == [j \in 1 .. Len(v) |-> FDot(MCol(M, j), v)]    \* v M
MDet(M) == FDot(M[1], VCross(M[2], M[3]))
Is3x3(M) == Len(M) = 3 /\ \A i \in 1 .. 3 : Len(M[i]) = 3
Is4x4(M) == Len(M) = 4 /\ \A i \in 1 .. 4 : Len(M[i]) = 4
Orthonormal(M, tol) == \A i, j \in 1 .. 3 : i <= j => Near(FDot(M[i], M[j]), IF i = j THEN One ELSE Zero, tol)
Block3(M) == [i \in 1 .. 3 |-> SubSeq(M[i], 1, 3)]

\* Rodrigues: v turned about the unit axis a by the angle with cosine c and sine s, counter-clockwise
Turn(v, a, c, s) == VAdd(VAdd(VScale(c, v), VScale(s, VCross(a, v))), VScale(FMul(FDot(a, v), Sub(One, c)), a))

JudgeAxisAngle(ev) ==
  LET a == VUnit(ev.axis)
      c == Cos(ev.angle)
      s == Sin(ev.angle)
  IN  IF ~ev.fin \/ ~Is3x3(ev.M) THEN {"C19:no rotation matrix"}
      ELSE Flag(~Orthonormal(ev.M, Tol11) \/ ~Near(MDet(ev.M), One, Tol11), "C19:axis-angle matrix is no proper rotation")
           \cup Flag(~VNear(MApply(ev.M, a), a, Tol11), "C19:rotation does not fix its axis")
           \cup Flag(\E k \in 1 .. 3 : ~VNear(MApply(ev.M, Basis[k]), Turn(Basis[k], a, c, s), Tol11), "C19:rotation by the wrong angle")

\* ev.form: "row" (v1 M = v2) or "column" (M v1 = v2) or "4x4" (column)
JudgeAlign(ev) ==
  LET a == VUnit(ev.v1)
      b == VUnit(ev.v2)
      M == IF ev.form = "4x4" THEN Block3(ev.M) ELSE ev.M
  IN  IF ~ev.fin \/ ~(IF ev.form = "4x4" THEN Is4x4(ev.M) ELSE Is3x3(ev.M)) THEN {"C19:no rotation matrix"}
      ELSE Flag(~Orthonormal(M, Tol8), "C19:aligning matrix is not orthogonal")
           \cup Flag(~Near(MDet(M), One, Tol8), "C19:aligning matrix is no proper rotation")
           \cup Flag(~VNear(IF ev.form = "row" THEN MTransApply(M, a) ELSE MApply(M, a), b, Tol9), "C19:first direction not carried onto the second")
           \cup Flag(ev.form = "4x4" /\ \E i \in 1 .. 4 : ev.M[i][4] # (IF i = 4 THEN One ELSE Zero) \/ ev.M[4][i] # (IF i = 4 THEN One ELSE Zero),
                     "C19:4x4 rotation moves the origin")

\* a 4x4 matrix applied to a point and to a direction
JudgeAffine(ev) ==
  IF ~ev.fin \/ ~Is4x4(ev.M) THEN {"C19:no 4x4 matrix"}
  ELSE LET want == [i \in 1 .. 4 |-> [j \in 1 .. 4 |->
                      IF ev.form = "scale" THEN IF i # j THEN Zero ELSE IF i = 4 THEN One ELSE ev.v[i]
                      ELSE IF i = j THEN One ELSE IF j = 4 THEN ev.v[i] ELSE Zero]]
       IN  Flag(ev.M # want, "C19:wrong " \o ev.form \o " matrix")

JudgeUntouched(ev) == Flag(ev.before # ev.after, ev.prop \o ":arguments changed")

JudgeAngle(ev) ==
  LET a == VUnit(ev.v1)
      b == VUnit(ev.v2)
      c == FDot(a, b)
      x == VCross(b, a)                            \* from the second vector to the first
      r == ev.obs
  IN  IF ~ev.fin THEN {"C20:angle is not a number"}
      ELSE IF ev.signed
      THEN \* both vectors lie in the plane of the unit normal ev.n
           Flag(Lt(Add(Pi, Tol12), Abs(r)), "C20:signed angle out of range")
           \cup Flag(~Near(Cos(r), c, Tol11) \/ ~Near(Sin(r), FDot(x, ev.n), Tol11), "C20:wrong signed angle")
      ELSE Flag(Lt(r, Zero) \/ Lt(Add(Pi, Tol12), r), "C20:angle outside [0, pi]")
           \cup Flag(~Near(Cos(r), c, Tol11), "C20:wrong angle")

JudgeProject(ev) ==
  IF ~ev.fin THEN {"C20:projection is not finite"}
  ELSE Flag(~VNear(ev.obs, VPerp(ev.v, VUnit(ev.n)), FMul(Tol10, Add(One, VMaxAbs(ev.v)))), "C20:wrong projection onto a plane")
JudgeUnit(ev) ==
  IF ~ev.fin THEN {"C20:unit vector is not finite"}
  ELSE Flag(~VNear(ev.obs, VUnit(ev.v), Tol10), "C20:wrong unit vector")
JudgeDistance(ev) ==
  IF ~ev.fin THEN {"C20:distance is not finite"}
  ELSE LET d == VDist(ev.v1, ev.v2) IN Flag(~Near(ev.obs, d, FMul(Tol10, Add(One, d))), "C20:wrong distance")
=============================================================================
