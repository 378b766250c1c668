-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of fixed point reals by their Taylor series.             *)
EXTENDS Real

Pi == << 12429, 4276, 23202, 4639, 3 >>
TwoPi == Mul(FromInt(2), Pi)

\* the angle in [-pi, pi)
Reduced(x) == Sub(x, Mul(TwoPi, Div(Add(x, Pi), TwoPi)))

\* term_k = (-1)^k r^(2k+odd) / (2k+odd)!, summed until it vanishes
RECURSIVE Series(_, _, _)
Series(term, r2, k) ==
  IF term = Zero \/ k > 60 THEN Zero
  ELSE Add(term, Series(Div(Opp(FMul(term, r2)), FromInt((k + 1) * (k + 2))), r2, k + 2))

Cos(x) == LET r == Reduced(x) IN Series(One, Sq(r), 0)
Sin(x) == LET r == Reduced(x) IN Series(r, Sq(r), 1)
=============================================================================
