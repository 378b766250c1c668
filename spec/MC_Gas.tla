------------------------------- MODULE MC_Gas -------------------------------
(* Fermi-Dirac integrals (C28) over a grid of orders and reduced energies:  *)
(* the specification's integral is checked against the laws of the          *)
(* Fermi-Dirac integrals and its limits, and what the code returns there is *)
(* compared with it.                                                        *)
EXTENDS JudgeGas, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "fermi", "gas" >>, parts |-> 1, low |-> -24, high |-> 30, orders |-> << -1, 1, 3, 5 >>]

VARIABLES mode, x, F, over                                          \* F: the integral
vars == << mode, x, F, over >>

Init == /\ mode \in ToSet(Conf.modes)
        /\ x \in IF mode = "fermi" THEN {[eta |-> e, twoj |-> j] : e \in Conf.low * Conf.parts .. Conf.high * Conf.parts, j \in ToSet(Conf.orders)}
                 ELSE {[m |-> m, T |-> t] : m \in {1, 1836, 7294}, t \in {-6, -2, 0, 1, 4, 9}}          \* electron masses; T = 4^t eV
        /\ over = FALSE /\ F = Zero

Eta == Div(Int2R(x.eta), FromInt(Conf.parts))
Integral == IF mode = "fermi" THEN Fermi(Eta, x.twoj) ELSE Zero
G == GammaOf(x.twoj)
ElectronMass(m) == [num |-> FromInt(m), k |-> 100]                 \* m 2^-100 g, as good as any
Temperature(t) == IF t >= 0 THEN [num |-> Pow2(2 * t), k |-> 0] ELSE [num |-> FromInt(1), k |-> -2 * t]
Concentration(m, t) == LET c == X3(ElectronMass(m), Temperature(t)) IN ISqrt(Div(Mul(c[1], Pow2(60)), c[2]))     \* times 2^30

\* script and roman value; by parts where they are small
Result(f) == IF mode = "gas" THEN [value |-> << Concentration(x.m, x.T) >>, q |-> 0, wide |-> << >>]
          ELSE IF Lt(Eta, Int2R(-20)) THEN LET p == ExpParts(Eta) IN [value |-> << p.m, FMul(G, p.m) >>, q |-> p.q, wide |-> << >>]
          ELSE [value |-> << FDiv(f, G), f >>, q |-> 0,
                wide |-> IF Lt(Int2R(20), Eta) THEN LET d == Abs(Sub(Degenerate(Eta, x.twoj), f)) IN << FDiv(d, G), d >> ELSE << >>]

Done == /\ ~over /\ over' = TRUE
        /\ F' = Integral
        /\ PrintT(ToJson([mode |-> mode, x |-> x, parts |-> Conf.parts, out |-> Result(F')]))
        /\ UNCHANGED << mode, x >>
Spec == Init /\ [][Done]_vars

(* ------------------------------ the laws ---------------------------- *)
Is(m) == mode = m /\ over
Step == Rat(1, 64)
\* d F_j / d eta = j F_(j-1)
Recurrence == Is("fermi") /\ x.twoj >= 1 =>
  LET slope == FDiv(Sub(Fermi(Add(Eta, Step), x.twoj), Fermi(Sub(Eta, Step), x.twoj)), Mul(FromInt(2), Step))
      want == Div(Mul(FromInt(x.twoj), Fermi(Eta, x.twoj - 2)), FromInt(2))
  IN  Near(slope, want, Add(FMul(Tol3, want), Tol12))
Growing == Is("fermi") => IsPos(F) /\ Lt(F, Fermi(Add(Eta, Step), x.twoj))
\* without degeneracy Gamma(j+1) e^eta, and always below it
Dilute == Is("fermi") =>
  LET b == FMul(G, Exp(Eta)) IN
  /\ Le(F, Add(b, Add(FMul(Tol9, b), Tol12)))
  /\ Lt(Eta, Zero) => Le(Sub(FMul(b, Sub(One, Exp(Eta))), Tol12), F)
\* with two terms of Sommerfeld's expansion: eta^(j+1)/(j+1) (1 + pi^2 j (j+1) / 6 eta^2), up to a term in eta^-4
Sommerfeld == Is("fermi") /\ Lt(Int2R(12), Eta) =>
  LET lead == Degenerate(Eta, x.twoj)
      c == Div(Mul(FromInt(x.twoj * (x.twoj + 2)), Sq(Pi)), FromInt(24))
      two == FMul(lead, Add(One, FDiv(c, Sq(Eta))))
      rest == FDiv(Int2R(20), Sq(Sq(Eta)))
  IN  /\ Near(F, two, FMul(lead, rest))
      /\ Near(F, Expansion(Eta, x.twoj), FMul(lead, FDiv(Int2R(100), FMul(Sq(Eta), Sq(Sq(Eta))))))
Accepted == Is("fermi") => LET e(s) == [num |-> s, k |-> 60] IN
  /\ Le(Int2R(-20), Eta) => /\ JudgeFermi([fin |-> TRUE, eta |-> Eta, twoj |-> x.twoj, script |-> FALSE, obs |-> e(F)]) = {}
                            /\ JudgeFermi([fin |-> TRUE, eta |-> Eta, twoj |-> x.twoj, script |-> TRUE, obs |-> e(FDiv(F, G))]) = {}
  /\ (x.twoj = 1 /\ Le(Int2R(-20), Eta)) => JudgeFermiApprox([fin |-> TRUE, eta |-> Eta, obs |-> e(F)]) = {}
\* four times the temperature, or the mass, means eight times the concentration
Scaling == Is("gas") =>
  LET a == Concentration(x.m, x.T)
      b == Concentration(x.m, x.T + 1)
  IN  /\ Le(Abs(Sub(b, Mul(FromInt(8), a))), Div(b, FromInt(1000000)))
      /\ JudgeConcentration([fin |-> TRUE, m |-> ElectronMass(x.m), T |-> Temperature(x.T), obs |-> [num |-> a, k |-> 30]]) = {}
=============================================================================
