----------------------------- MODULE MC_Vectors -----------------------------
(* Rotations, angles and projections (C19, C20) of all small integer        *)
(* vectors: the judges' formulas are checked against what they are for, and *)
(* the results are printed, to be compared with the code's.                 *)
EXTENDS JudgeVectors, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "turn", "align", "angle", "signed", "project", "distance" >>, k |-> 1, steps |-> 12, most |-> 14]

Cube(k) == [1 .. 3 -> -k .. k]
Vectors(k) == Cube(k) \ {<< 0, 0, 0 >>}
Even(v) == \A i \in 1 .. 3 : v[i] % 2 = 0
Dirs(k) == {v \in Vectors(k) : ~Even(v)}
ZDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
ZCross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
IV(v) == << Int2R(v[1]), Int2R(v[2]), Int2R(v[3]) >>

VARIABLES mode, x, over
vars == << mode, x, over >>

\* the multiples of a small angle, to both sides, and past the full circle
Angle(j) == Div(Mul(FromInt(j), Pi), FromInt(Conf.steps))
Cases(m) ==
  CASE m = "turn"     -> {[a |-> a, j |-> j] : a \in Dirs(Conf.k), j \in -Conf.most .. Conf.most}
    [] m = "align"    -> {[a |-> a, b |-> b] : a \in Vectors(Conf.k), b \in Vectors(Conf.k)}
    [] m = "angle"    -> {[a |-> a, b |-> b] : a \in Vectors(Conf.k), b \in Vectors(Conf.k)}
    [] m = "signed"   -> {[n |-> n, a |-> a, b |-> b] : n \in {v \in Vectors(1) : ZDot(v, v) = 1}, a \in Vectors(Conf.k), b \in Vectors(Conf.k)}
    [] m = "project"  -> {[v |-> v, n |-> n] : v \in Cube(Conf.k), n \in Vectors(Conf.k)}
    [] m = "distance" -> {[a |-> a, b |-> b] : a \in Cube(Conf.k), b \in Cube(Conf.k)}

Init == /\ mode \in ToSet(Conf.modes)
        /\ x \in Cases(mode)
        /\ mode = "signed" => ZDot(x.n, x.a) = 0 /\ ZDot(x.n, x.b) = 0
        /\ over = FALSE

(* ---- the results ---- *)
Matrix(axis, th) ==                                        \* by rows
  LET a == VUnit(IV(axis))
      c == Cos(th)
      s == Sin(th)
      col == [k \in 1 .. 3 |-> Turn(Basis[k], a, c, s)]
  IN  [i \in 1 .. 3 |-> [k \in 1 .. 3 |-> col[k][i]]]
UA == VUnit(IV(x.a))
UB == VUnit(IV(x.b))
CosAB == FDiv(Int2R(ZDot(x.a, x.b)), ISqrt(Mul(Int2R(ZDot(x.a, x.a)), Int2R(ZDot(x.b, x.b)))))
SinAB == FDiv(Int2R(ZDot(ZCross(x.b, x.a), x.n)), ISqrt(Mul(Int2R(ZDot(x.a, x.a)), Int2R(ZDot(x.b, x.b)))))
Projected == [i \in 1 .. 3 |-> FDiv(Int2R(x.v[i] * ZDot(x.n, x.n) - ZDot(x.v, x.n) * x.n[i]), Int2R(ZDot(x.n, x.n)))]
\* of the rotations that carry the first onto the second direction the one about their common perpendicular
Aligning == IF ZCross(x.a, x.b) # << 0, 0, 0 >>
            THEN LET w == VCross(UA, UB)
                     c == FDot(UA, UB)
                     col == [k \in 1 .. 3 |-> VAdd(VAdd(VScale(c, Basis[k]), VCross(w, Basis[k])), VScale(FDiv(FDot(w, Basis[k]), Add(One, c)), w))]
                 IN  [i \in 1 .. 3 |-> [k \in 1 .. 3 |-> col[k][i]]]
            ELSE IF ZDot(x.a, x.b) > 0 THEN Basis
            ELSE LET p == IF x.a[1] # 0 \/ x.a[2] # 0 THEN VUnit(IV(<< x.a[2], -x.a[1], 0 >>)) ELSE Basis[1]
                     col == [k \in 1 .. 3 |-> VSub(VScale(Mul(FromInt(2), FDot(p, Basis[k])), p), Basis[k])]
                 IN  [i \in 1 .. 3 |-> [k \in 1 .. 3 |-> col[k][i]]]
Result ==
  CASE mode = "turn"     -> Matrix(x.a, Angle(x.j))
    [] mode = "align"    -> << UA, UB >>
    [] mode = "angle"    -> << CosAB >>
    [] mode = "signed"   -> << CosAB, SinAB >>
    [] mode = "project"  -> << Projected, VUnit(IV(x.n)) >>
    [] mode = "distance" -> << ISqrt(Mul(Int2R(ZDot([i \in 1 .. 3 |-> x.a[i] - x.b[i]], [i \in 1 .. 3 |-> x.a[i] - x.b[i]])), One)) >>

Done == /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([mode |-> mode, x |-> x, steps |-> Conf.steps, out |-> Result]))
        /\ UNCHANGED << mode, x >>
Spec == Init /\ [][Done]_vars

(* ------------------------------ the laws ---------------------------- *)
Is(m) == mode = m /\ over
MMul(A, B) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> FDot(A[i], MCol(B, j))]]
MNear(A, B, tol) == \A i \in 1 .. 3 : VNear(A[i], B[i], tol)
Transposed(A) == [i \in 1 .. 3 |-> MCol(A, i)]

Rotation == Is("turn") => LET M == Matrix(x.a, Angle(x.j)) IN
  /\ JudgeAxisAngle([fin |-> TRUE, M |-> M, axis |-> IV(x.a), angle |-> Angle(x.j)]) = {}
  /\ Orthonormal(M, Tol12) /\ Near(MDet(M), One, Tol12)
  /\ Near(Add(M[1][1], Add(M[2][2], M[3][3])), Add(One, Mul(FromInt(2), Cos(Angle(x.j)))), Tol12)         \* the trace
  /\ MNear(Transposed(M), Matrix(x.a, Angle(-x.j)), Tol12)                                                 \* back again
  /\ MNear(M, Matrix([i \in 1 .. 3 |-> -x.a[i]], Angle(-x.j)), Tol12)
  /\ MNear(M, Matrix(x.a, Angle(x.j + 2 * Conf.steps)), Tol11)                                             \* a full circle
  /\ MNear(MMul(M, Matrix(x.a, Angle(5))), Matrix(x.a, Angle(x.j + 5)), Tol11)                             \* one after the other
\* counter-clockwise: what lies across the axis moves towards axis x vector
Handed == Is("turn") /\ x.j \in 1 .. Conf.steps - 1 => \A k \in 1 .. 3 :
  LET a == VUnit(IV(x.a))
      v == VPerp(Basis[k], a)
  IN  VLen(v) = Zero \/ IsPos(FDot(MApply(Matrix(x.a, Angle(x.j)), v), VCross(a, v))) \/ Le(VLen(v), Tol9)
Alignable == Is("align") =>
  /\ JudgeAlign([fin |-> TRUE, form |-> "column", M |-> Aligning, v1 |-> IV(x.a), v2 |-> IV(x.b)]) = {}
  /\ JudgeAlign([fin |-> TRUE, form |-> "row", M |-> Transposed(Aligning), v1 |-> IV(x.a), v2 |-> IV(x.b)]) = {}
Angles == Is("angle") =>
  /\ Le(Abs(CosAB), Add(One, Tol12))
  /\ Near(CosAB, FDot(UA, UB), Tol12)
  /\ (ZCross(x.a, x.b) = << 0, 0, 0 >>) = Near(Abs(CosAB), One, Tol12)
\* the angle from the second to the first, so that turning the second by it about n gives the first
SignedAngles == Is("signed") =>
  /\ Near(Add(Sq(CosAB), Sq(SinAB)), One, Tol12)
  /\ VNear(Turn(UB, IV(x.n), CosAB, SinAB), UA, Tol12)
Projection == Is("project") => LET p == Projected IN
  /\ Near(FDot(p, VUnit(IV(x.n))), Zero, Tol12)                                       \* in the plane
  /\ VNear(VCross(VSub(IV(x.v), p), IV(x.n)), VZero, Tol12)                           \* only the part along n is gone
  /\ JudgeProject([fin |-> TRUE, obs |-> p, v |-> IV(x.v), n |-> IV(x.n)]) = {}
Distance == Is("distance") => JudgeDistance([fin |-> TRUE, v1 |-> IV(x.a), v2 |-> IV(x.b), obs |-> Result[1]]) = {}
=============================================================================
