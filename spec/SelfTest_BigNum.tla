-------------------------- MODULE SelfTest_BigNum ---------------------------
(* The Java override of BigNum agrees with BigNum's TLA+ definitions.       *)
(* BigNumPure is BigNum.tla under another name, so it is not overridden.    *)
EXTENDS Integers, Sequences, TLC, BigNum
P == INSTANCE BigNumPure

D == {-32767, -1, 1, 2, 16384, 32767}
Z == {0, 1, 32767}
SgnOf(x) == IF x < 0 THEN -1 ELSE 1
Small == {<< >>} \cup {<< d >> : d \in D} \cup {<< SgnOf(d) * z, d >> : z \in Z, d \in D}
Large == {<< SgnOf(d) * z, 0, SgnOf(d) * 32767, SgnOf(d) * y, SgnOf(d) * 12345, d >> : z \in Z, y \in Z, d \in {-32767, -2, 1, 300}}
         \cup {<< 0, 0, 0, 0, d >> : d \in D} \cup {<< SgnOf(d), 0, 0, 0, 0, 0, 0, d >> : d \in D}
Nums == Small \cup Large
Ints == {-2147483647, -32768, -32767, -1, 0, 1, 32767, 32768, 1073741824, 2147483647}

VARIABLES a, b
Init == a \in Nums /\ b = << >>
Next == b = << >> /\ b' \in Nums /\ a' = a
Agrees ==
  /\ Add(a, b) = P!Add(a, b) /\ Sub(a, b) = P!Sub(a, b) /\ Mul(a, b) = P!Mul(a, b)
  /\ Opp(a) = P!Opp(a) /\ Abs(a) = P!Abs(a)
  /\ Lt(a, b) = P!Lt(a, b) /\ Le(a, b) = P!Le(a, b) /\ (Lt(a, b) \/ Lt(b, a) \/ a = b)
  /\ FMul(a, b) = P!FMul(a, b)
  /\ b # << >> => P!IsDiv(a, b, Div(a, b)) /\ P!IsDiv(IF a = << >> THEN a ELSE << 0, 0, 0, 0 >> \o a, b, FDiv(a, b))
  /\ ~Lt(a, << >>) => P!IsSqrt(a, ISqrt(a)) /\ P!IsSqrt(IF a = << >> THEN a ELSE << 0, 0, 0, 0 >> \o a, FSqrt(a))
  /\ LET u == << a, b, a >>  v == << b, a, << 7 >> >> IN
       /\ FDot(u, v) = P!FDot(u, v) /\ RawDot(u, v) = P!RawDot(u, v) /\ VAdd(u, v) = P!VAdd(u, v)
       /\ VSub(u, v) = P!VSub(u, v) /\ VScale(a, v) = P!VScale(a, v)
  /\ \A i \in Ints : FromInt(i) = P!FromInt(i)
=============================================================================
