-------------------------------- MODULE Real --------------------------------
(* Fixed point reals and 3-vectors on top of BigNum.                        *)
EXTENDS BigNum

Zero == << >>
One  == << 0, 0, 0, 0, 1 >>                     \* 2^60
Int2R(i) == IF i = 0 THEN Zero ELSE Mul(FromInt(i), One)
Rat(n, d) == FDiv(Int2R(n), Int2R(d))
Two  == Int2R(2)
Half(a) == FMul(a, << 0, 0, 0, 16384 >>)        \* 2^59
TenTo(k) ==                                      \* 10^k, -18 <= k <= 18
  LET RECURSIVE P(_)
      P(j) == IF j = 0 THEN FromInt(1) ELSE Mul(FromInt(10), P(j - 1))
  IN  IF k >= 0 THEN Mul(P(k), One) ELSE Div(One, P(-k))

Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
IsPos(a) == Lt(Zero, a)
IsNegative(a) == Lt(a, Zero)
Sign(a) == IF a = Zero THEN 0 ELSE IF Lt(a, Zero) THEN -1 ELSE 1
MinR(a, b) == IF Lt(b, a) THEN b ELSE a
MaxR(a, b) == IF Lt(a, b) THEN b ELSE a
Sq(a) == FMul(a, a)
Near(a, b, tol) == Le(Abs(Sub(a, b)), tol)
Within(x, lo, hi) == Le(lo, x) /\ Le(x, hi)

(* ---- 3-vectors ---- *)
VZero == << Zero, Zero, Zero >>
VNeg(a) == << Opp(a[1]), Opp(a[2]), Opp(a[3]) >>
VCross(a, b) == << Sub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                   Sub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                   Sub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
VLen(a) == ISqrt(RawDot(a, a))                   \* exact to the last digit
VDist(a, b) == VLen(VSub(a, b))
VUnit(a) == LET l == VLen(a) IN << FDiv(a[1], l), FDiv(a[2], l), FDiv(a[3], l) >>
VAt(p, d, t) == VAdd(p, VScale(t, d))            \* the point p + t d
VPerp(a, n) == VSub(a, VScale(FDot(a, n), n))    \* part of a perpendicular to unit vector n
VNear(a, b, tol) == /\ Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
VMaxAbs(a) == MaxR(Abs(a[1]), MaxR(Abs(a[2]), Abs(a[3])))

(* ---- tolerances ---- *)
Tol12 == TenTo(-12)
Tol11 == TenTo(-11)
Tol10 == TenTo(-10)
Tol9 == TenTo(-9)
Tol8 == TenTo(-8)
Tol7 == TenTo(-7)
Tol6 == TenTo(-6)
Tol5 == TenTo(-5)
Tol4 == TenTo(-4)
Tol3 == TenTo(-3)
Tol2 == TenTo(-2)
=============================================================================
