------------------------------- MODULE BigNum -------------------------------
(* Integers of any size and fixed point reals for TLC, whose own integers   *)
(* have 32 bits.                                                            *)
(*                                                                          *)
(* An integer is a sequence of limbs, least significant first, in base 2^15 *)
(* (so that a product of limbs fits TLC's integers).  All non-zero limbs    *)
(* have the sign of the number, the most significant limb is not zero, and  *)
(* zero is << >>: every integer has exactly one representation, so TLA+     *)
(* equality is numeric equality.                                            *)
(*                                                                          *)
(* A real x is represented by the integer nearest to x * 2^60.              *)
(*                                                                          *)
(* java/BigNum.java overrides the operators for speed; SelfTest_BigNum.tla  *)
(* checks the override against these definitions.                           *)
EXTENDS Integers, Sequences

BnBase == 32768

(* ---- magnitudes: sequences of limbs 0..BnBase-1 without leading zero ---- *)
RECURSIVE BnTrim(_)
BnTrim(m) == IF m = << >> \/ m[Len(m)] # 0 THEN m ELSE BnTrim(SubSeq(m, 1, Len(m) - 1))
BnAt(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
BnMaxI(i, j) == IF i > j THEN i ELSE j

RECURSIVE BnAddFrom(_, _, _, _)
BnAddFrom(m, n, i, carry) ==
  IF i > BnMaxI(Len(m), Len(n)) THEN IF carry = 0 THEN << >> ELSE << carry >>
  ELSE LET s == BnAt(m, i) + BnAt(n, i) + carry IN << s % BnBase >> \o BnAddFrom(m, n, i + 1, s \div BnBase)
BnMAdd(m, n) == BnAddFrom(m, n, 1, 0)

RECURSIVE BnSubFrom(_, _, _, _)
BnSubFrom(m, n, i, borrow) ==           \* requires m >= n
  IF i > Len(m) THEN << >>
  ELSE LET d == BnAt(m, i) - BnAt(n, i) - borrow
       IN  << IF d < 0 THEN d + BnBase ELSE d >> \o BnSubFrom(m, n, i + 1, IF d < 0 THEN 1 ELSE 0)
BnMSub(m, n) == BnTrim(BnSubFrom(m, n, 1, 0))

RECURSIVE BnLtFrom(_, _, _)
BnLtFrom(m, n, i) == IF i = 0 THEN FALSE
                   ELSE IF m[i] # n[i] THEN m[i] < n[i] ELSE BnLtFrom(m, n, i - 1)
BnMLt(m, n) == IF Len(m) # Len(n) THEN Len(m) < Len(n) ELSE BnLtFrom(m, n, Len(m))

RECURSIVE BnScaleFrom(_, _, _, _)
BnScaleFrom(m, d, i, carry) ==
  IF i > Len(m) THEN IF carry = 0 THEN << >> ELSE << carry >>
  ELSE LET s == m[i] * d + carry IN << s % BnBase >> \o BnScaleFrom(m, d, i + 1, s \div BnBase)
RECURSIVE BnMMul(_, _)
BnMMul(m, n) == IF m = << >> \/ n = << >> THEN << >>
                    ELSE BnMAdd(BnTrim(BnScaleFrom(m, n[1], 1, 0)), LET r == BnMMul(m, Tail(n)) IN IF r = << >> THEN r ELSE << 0 >> \o r)

(* ---- integers ---- *)
BnIsNeg(a) == a # << >> /\ a[Len(a)] < 0
Abs(a) == IF BnIsNeg(a) THEN [i \in 1 .. Len(a) |-> -a[i]] ELSE a
Opp(a) == [i \in 1 .. Len(a) |-> -a[i]]

FromInt(i) ==
  LET RECURSIVE Digits(_)
      Digits(k) == IF k = 0 THEN << >> ELSE << k % BnBase >> \o Digits(k \div BnBase)
  IN  IF i < 0 THEN Opp(Digits(-i)) ELSE Digits(i)

Add(a, b) ==
  CASE ~BnIsNeg(a) /\ ~BnIsNeg(b) -> BnMAdd(a, b)
    [] BnIsNeg(a) /\ BnIsNeg(b)   -> Opp(BnMAdd(Abs(a), Abs(b)))
    [] OTHER -> LET m == Abs(a)  n == Abs(b)
                    d == IF BnMLt(m, n) THEN BnMSub(n, m) ELSE BnMSub(m, n)
                    neg == IF BnMLt(m, n) THEN BnIsNeg(b) ELSE BnIsNeg(a)
                IN  IF neg THEN Opp(d) ELSE d
Sub(a, b) == Add(a, Opp(b))
Mul(a, b) == LET m == BnMMul(Abs(a), Abs(b)) IN IF BnIsNeg(a) = BnIsNeg(b) THEN m ELSE Opp(m)

Lt(a, b) == CASE BnIsNeg(a) /\ ~BnIsNeg(b) -> TRUE
              [] ~BnIsNeg(a) /\ BnIsNeg(b) -> FALSE
              [] BnIsNeg(a) /\ BnIsNeg(b)  -> BnMLt(Abs(b), Abs(a))
              [] OTHER                 -> BnMLt(a, b)
Le(a, b) == ~Lt(b, a)

(* Floor of the quotient and of the square root, defined by what they are   *)
(* (TLC only ever uses the override for these; the self test checks that    *)
(* its results satisfy IsDiv and IsSqrt).                                   *)
BigInt == {s \in Seq(-(BnBase - 1) .. (BnBase - 1)) :
              s = << >> \/ (s[Len(s)] # 0 /\ \A i \in 1 .. Len(s) : s[i] * s[Len(s)] >= 0)}
IsDiv(a, b, q) == IF BnIsNeg(b) THEN Le(a, Mul(b, q)) /\ Lt(Mul(b, Add(q, FromInt(1))), a)
                              ELSE Le(Mul(b, q), a) /\ Lt(a, Mul(b, Add(q, FromInt(1))))
IsSqrt(a, r) == ~Lt(r, << >>) /\ Le(Mul(r, r), a) /\ LET s == Add(r, FromInt(1)) IN Lt(a, Mul(s, s))
Div(a, b) == CHOOSE q \in BigInt : IsDiv(a, b, q)
ISqrt(a)  == CHOOSE r \in BigInt : IsSqrt(a, r)

(* ---- fixed point reals, 60 = 4 limbs of fraction; products round towards zero ---- *)
BnUp(a) == IF a = << >> THEN a ELSE << 0, 0, 0, 0 >> \o a
BnDown(a) == IF Len(a) <= 4 THEN << >> ELSE SubSeq(a, 5, Len(a))
FMul(a, b) == BnDown(Mul(a, b))
FDiv(a, b) == Div(BnUp(a), b)
FSqrt(a)   == ISqrt(BnUp(a))

(* ---- vectors (of equal length) of fixed point reals ---- *)
RECURSIVE BnDotFrom(_, _, _)
BnDotFrom(a, b, i) == IF i > Len(a) THEN << >> ELSE Add(Mul(a[i], b[i]), BnDotFrom(a, b, i + 1))
RawDot(a, b) == BnDotFrom(a, b, 1)            \* scaled by 2^120
FDot(a, b)   == BnDown(BnDotFrom(a, b, 1))
VAdd(a, b)   == [i \in 1 .. Len(a) |-> Add(a[i], b[i])]
VSub(a, b)   == [i \in 1 .. Len(a) |-> Sub(a[i], b[i])]
VScale(s, a) == [i \in 1 .. Len(a) |-> FMul(s, a[i])]
=============================================================================
