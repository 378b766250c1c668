------------------------------ MODULE JudgeGas ------------------------------
(* Fermi-Dirac integrals and the ideal gas (property C28).                  *)
(*                                                                          *)
(* The integral of order j = twoj / 2 (twoj odd) at the reduced energy eta  *)
(* is  F_j(eta) = int_0^oo e^j / (1 + exp(e - eta)) de .  With e = u^2 the  *)
(* integrand is an even, analytic function of u, for which the trapezoidal  *)
(* rule converges faster than any power of its step.                        *)
(* Numbers of any magnitude are given exactly, as num / 2^k (JudgeText).    *)
EXTENDS JudgeText, JudgeSignals
LOCAL INSTANCE TLC

Ln2 == << 30619, 31289, 1533, 22713 >>
RECURSIVE Taylor(_, _, _)
Taylor(term, r, k) == IF term = Zero THEN Zero ELSE Add(term, Taylor(Div(FMul(term, r), FromInt(k)), r, k + 1))
\* e^x = m 2^q with m in [1, 2)
ExpParts(x) == LET q == Div(x, Ln2) IN [q |-> SmallInt(q), m |-> Taylor(One, Sub(x, Mul(q, Ln2)), 1)]
Exp(x) == LET p == ExpParts(x) IN IF p.q >= 0 THEN Mul(p.m, Pow2(p.q)) ELSE Div(p.m, Pow2(-p.q))

(* ---- the integral ---- *)
Occupied(z) == IF IsPos(z) THEN LET w == Exp(Opp(z)) IN FDiv(w, Add(One, w)) ELSE FDiv(One, Add(One, Exp(z)))
RECURSIVE Trapezoid(_, _, _, _)
Trapezoid(i, steps, twoj, eta) ==
  LET u == Div(Int2R(i), FromInt(steps))
      z == Sub(Sq(u), eta)
  IN  IF Lt(Int2R(46), z) THEN Zero
      ELSE Add(FMul(PowR(u, twoj + 1), Occupied(z)), Trapezoid(i + 1, steps, twoj, eta))
Quadrature(eta, twoj) ==
  LET steps == IF Lt(Int2R(20), eta) THEN 32 ELSE 16
      rest == Trapezoid(1, steps, twoj, eta)
      first == IF twoj = -1 THEN Half(Occupied(Opp(eta))) ELSE Zero
  IN  TLCEval(Div(Mul(FromInt(2), Add(first, rest)), FromInt(steps)))

\* the leading term of a degenerate gas: eta^(j+1) / (j + 1)
Degenerate(eta, twoj) == Div(Mul(FromInt(2), FMul(PowR(eta, (twoj + 1) \div 2), FSqrt(eta))), FromInt(twoj + 2))
\* Sommerfeld's expansion; what it leaves out is of the order of 30 / eta^6
Expansion(eta, twoj) ==
  LET t == twoj
      c2 == Div(Mul(FromInt(t * (t + 2)), Sq(Pi)), FromInt(24))
      c4 == Div(Mul(FromInt(7 * t * (t + 2) * (t - 2) * (t - 4)), Sq(Sq(Pi))), FromInt(5760))
      e2 == Sq(eta)
  IN  FMul(Degenerate(eta, t), Add(One, FDiv(Add(c2, FDiv(c4, e2)), e2)))
Fermi(eta, twoj) == IF Lt(Int2R(200), eta) THEN Expansion(eta, twoj) ELSE Quadrature(eta, twoj)

SqrtPi == FSqrt(Pi)
RECURSIVE GammaHalf(_)                         \* Gamma(n / 2) for an odd n
GammaHalf(n) == IF n = 1 THEN SqrtPi ELSE Div(Mul(FromInt(n - 2), GammaHalf(n - 2)), FromInt(2))
GammaOf(twoj) == GammaHalf(twoj + 2)           \* Gamma(j + 1)

\* num / 2^k is near m 2^(q-60), relative to tol
NearParts(num, k, m, q, tol) ==
  LET s == IF q < 60 THEN 60 - q ELSE 0        \* common denominator 2^(k+s)
      a == Mul(num, Pow2(s))
      b == IF q < 60 THEN Mul(m, Pow2(k)) ELSE Mul(m, Pow2(k + q - 60))
  IN  Le(Abs(Sub(a, b)), FMul(tol, b))
Fixed(x) == Div(Mul(x.num, One), Pow2(x.k))

JudgeFermi(ev) ==
  LET F == Fermi(ev.eta, ev.twoj)
      G == GammaOf(ev.twoj)
      want == IF ev.script THEN FDiv(F, G) ELSE F
      v == Fixed(ev.obs)
  IN  IF ~ev.fin THEN {"C28:integral is not a number"}
      ELSE IF Lt(ev.eta, Int2R(-20))
      THEN LET p == ExpParts(ev.eta) IN
           Flag(~NearParts(ev.obs.num, ev.obs.k, IF ev.script THEN p.m ELSE FMul(G, p.m), p.q, Tol7), "C28:wrong Fermi-Dirac integral of a dilute gas")
      ELSE IF Le(ev.eta, Int2R(20))
      THEN Flag(~Near(v, want, Add(FMul(Tol8, want), FMul(Tol10, Add(One, G)))), "C28:wrong Fermi-Dirac integral")
      ELSE LET lead == Degenerate(ev.eta, ev.twoj)
               term == IF ev.script THEN FDiv(lead, G) ELSE lead
               room == FMul(Abs(Sub(term, want)), Add(One, Tol3))
           IN  Flag(Lt(Add(room, FMul(Tol8, want)), Abs(Sub(v, want))), "C28:wrong Fermi-Dirac integral of a degenerate gas")

JudgeFermiApprox(ev) ==
  LET F == Fermi(ev.eta, 1)
      v == Fixed(ev.obs)
  IN  IF ~ev.fin THEN {"C28:approximation is not a number"}
      ELSE IF Lt(ev.eta, Int2R(-20))
      THEN LET p == ExpParts(ev.eta) IN Flag(~NearParts(ev.obs.num, ev.obs.k, FMul(GammaOf(1), p.m), p.q, Tol7), "C28:wrong approximation")
      ELSE LET tol == IF Lt(ev.eta, Int2R(-2)) \/ Lt(Int2R(10), ev.eta) THEN Tol6 ELSE Tol4
           IN  Flag(~Near(v, F, FMul(tol, F)), "C28:wrong approximation")

(* ---- quantum concentration (2 pi m T / h^2)^(3/2), in grams, eV and centimetres ---- *)
\* its square is the cube of A m T, A = 2 pi e 10^7 / h^2 with e = 1.6021766208e-19 and h = 6.62607004e-27
\* = 2 pi 16021766208 10^48 / 662607004^2
ANum == Mul(Mul(FromInt(2), Pi), Mul(Add(Mul(FromInt(160217), Ten(5)), FromInt(66208)), Ten(48)))
HNum == Add(Mul(FromInt(66260), Ten(4)), FromInt(7004))
ADen == Mul(One, Mul(HNum, HNum))
X3(m, T) ==                                     \* (A m T)^3 as << numerator, denominator >>
  LET n == Mul(ANum, Mul(m.num, T.num))
      d == Mul(ADen, Mul(Pow2(m.k), Pow2(T.k)))
  IN  TLCEval(<< Mul(n, Mul(n, n)), Mul(d, Mul(d, d)) >>)
\* a / b is near c / d, relative to tol; all positive
NearRatio(a, b, c, d, tol) == LET l == Mul(a, d)  r == Mul(c, b) IN Le(Abs(Sub(l, r)), FMul(tol, r))
JudgeConcentration(ev) ==
  IF ~ev.fin THEN {"C28:quantum concentration is not a number"}
  ELSE LET x == X3(ev.m, ev.T) IN
       Flag(IsNegative(ev.obs.num) \/ ~NearRatio(Mul(ev.obs.num, ev.obs.num), Mul(Pow2(ev.obs.k), Pow2(ev.obs.k)), x[1], x[2], Mul(FromInt(2), Tol6)),
            "C28:wrong quantum concentration")

(* ---- entropy N kB (5/2 + ln (nQ / n)), N = n V, kB = 1.38064852e-16 erg / K ---- *)
\* so exp(2 (S / (N kB) - 5/2)) is (nQ / n)^2
JudgeEntropy(ev) ==
  IF ~ev.fin THEN {"C28:entropy is not a number"}
  ELSE LET N == << Mul(ev.n.num, ev.V.num), Mul(Pow2(ev.n.k), Pow2(ev.V.k)) >>
           \* S / (N kB) as a fixed point real
           kb == Add(Mul(FromInt(13806), Ten(4)), FromInt(4852))                 \* 138064852e-24
           s == Div(Mul(Mul(ev.obs.num, One), Mul(N[2], Ten(24))), Mul(Mul(Pow2(ev.obs.k), N[1]), kb))
           L == Mul(FromInt(2), Sub(s, Rat(5, 2)))
           p == ExpParts(L)
           x == X3(ev.m, ev.T)
           num == Mul(x[1], Mul(Pow2(ev.n.k), Pow2(ev.n.k)))                     \* (nQ / n)^2
           den == Mul(x[2], Mul(ev.n.num, ev.n.num))
           sn == IF p.q >= 0 THEN Mul(p.m, Pow2(p.q)) ELSE p.m
           sd == IF p.q >= 0 THEN One ELSE Mul(One, Pow2(-p.q))
       IN  IF Lt(Int2R(4000), Abs(L)) THEN {"C28:wrong entropy"}
           ELSE Flag(~NearRatio(sn, sd, num, den, Mul(FromInt(4), Tol6)), "C28:wrong entropy")
=============================================================================
