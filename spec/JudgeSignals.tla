---------------------------- MODULE JudgeSignals ----------------------------
(* Colours (C23) and signal and table helpers (C24).                        *)
EXTENDS JudgeVectors
LOCAL INSTANCE TLC                               \* TLCEval: evaluate a function once, not at every use

RECURSIVE PowR(_, _)
PowR(x, k) == IF k = 0 THEN One ELSE FMul(x, PowR(x, k - 1))

\* y = x^(a/b), up to an error of tol in y and one in a thousand million of x
IsPower(y, x, a, b, tol) ==
  LET lo == PowR(MaxR(Zero, Sub(y, tol)), b)
      hi == PowR(Add(y, tol), b)
      p == PowR(x, a)
      slack == << 32768 \div 4 >>
  IN  Le(lo, Add(p, slack)) /\ Le(Sub(p, slack), hi)

(* ---- the spectrum: [from, to] -> base value of each colour before gamma ---- *)
Line(w, w0, v0, w1, v1) == Add(v0, FDiv(FMul(Sub(v1, v0), Sub(w, Int2R(w0))), Int2R(w1 - w0)))
In(w, a, b) == Le(Int2R(a), w) /\ Le(w, Int2R(b))
FadeLow(w)  == Line(w, 380, Rat(3, 10), 440, One)
FadeHigh(w) == Line(w, 645, One, 750, Rat(3, 10))
RedBase(w)   == IF In(w, 380, 440) THEN FMul(Line(w, 380, One, 440, Zero), FadeLow(w))
                ELSE IF In(w, 440, 510) THEN Zero
                ELSE IF In(w, 510, 580) THEN Line(w, 510, Zero, 580, One)
                ELSE IF In(w, 580, 645) THEN One ELSE FadeHigh(w)
GreenBase(w) == IF In(w, 380, 440) THEN Zero
                ELSE IF In(w, 440, 490) THEN Line(w, 440, Zero, 490, One)
                ELSE IF In(w, 490, 580) THEN One
                ELSE IF In(w, 580, 645) THEN Line(w, 580, One, 645, Zero) ELSE Zero
BlueBase(w)  == IF In(w, 380, 440) THEN FadeLow(w)
                ELSE IF In(w, 440, 490) THEN One
                ELSE IF In(w, 490, 510) THEN Line(w, 490, One, 510, Zero) ELSE Zero

Clamped(w, floor, ceil) == MinR(MaxR(w, floor), ceil)
Bases(w) == IF In(w, 380, 750) THEN << RedBase(w), GreenBase(w), BlueBase(w) >>
            ELSE IF Lt(w, Int2R(380)) THEN << Rat(3, 10), Zero, Rat(3, 10) >> ELSE << Rat(3, 10), Zero, Zero >>

JudgeColour(ev) ==
  LET w == Clamped(ev.wl, ev.floor, ev.ceil)
      base == Bases(w)
  IN  IF ~ev.fin \/ Len(ev.rgb) # 3 THEN {"C23:no colour"}
      ELSE Flag(\E k \in 1 .. 3 : ~Within(ev.rgb[k], Zero, One), "C23:colour outside [0, 1]")
           \cup IF In(w, 380, 750)
                THEN Flag(\E k \in 1 .. 3 : ~IsPower(ev.rgb[k], base[k], ev.ga, ev.gb, Tol9), "C23:wrong colour")
                ELSE Flag(~VNear(ev.rgb, base, Tol9), "C23:wrong colour outside the visible range")

(* ---- Savitzky-Golay ---- *)
RECURSIVE IPow(_, _)
IPow(k, i) == IF i = 0 THEN FromInt(1) ELSE Mul(FromInt(k), IPow(k, i - 1))
RECURSIVE ISum(_, _, _)
ISum(i, k, h) == IF k > h THEN << >> ELSE Add(IPow(k, i), ISum(i, k + 1, h))
RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k - 1)

\* The coefficients of the least-squares weights: solves G w = unit vector d by fraction free elimination
\* (G is the positive definite matrix of power sums, so no pivot vanishes); << numerators, common denominator >>.
RECURSIVE Eliminate(_, _, _, _)
Eliminate(M, k, n, prev) ==
  IF k > n THEN M
  ELSE Eliminate(TLCEval([i \in 1 .. n |-> [j \in 1 .. n + 1 |->
                   IF i = k THEN M[i][j]
                   ELSE Div(Sub(Mul(M[k][k], M[i][j]), Mul(M[i][k], M[k][j])), prev)]]), k + 1, n, M[k][k])
SolvePowers(h, order, d) ==
  LET n == order + 1
      sums == TLCEval([i \in 0 .. 2 * order |-> ISum(i, -h, h)])
      M == TLCEval([i \in 1 .. n |-> [j \in 1 .. n + 1 |-> IF j <= n THEN sums[i + j - 2] ELSE IF i = d + 1 THEN FromInt(1) ELSE << >>]])
      R == Eliminate(M, 1, n, FromInt(1))
  IN  TLCEval([num |-> [i \in 1 .. n |-> R[i][n + 1]], den |-> R[n][n]])

RECURSIVE WeightNum(_, _, _)
WeightNum(num, k, i) == IF i = 0 THEN << >> ELSE Add(WeightNum(num, k, i - 1), Mul(num[i], IPow(k, i - 1)))
\* all diagonal elements of the eliminated matrix are the determinant only after the last step, so scale rows
SgWeights(h, order, d) ==
  LET s == SolvePowers(h, order, d) IN TLCEval([k \in 0 .. 2 * h |-> [num |-> WeightNum(s.num, k - h, order + 1), den |-> s.den]])

RECURSIVE SgSum(_, _, _, _)
SgSum(ws, ys, at, k) == IF k < 0 THEN << >> ELSE Add(Mul(ws[k].num, ys[at + k]), SgSum(ws, ys, at, k - 1))

Usable(window, order) == window % 2 = 1 /\ window >= order + 2
\* the signal, mirrored at its ends through its end points
Padded(y, h) ==
  LET n == Len(y)
      first == [k \in 1 .. h |-> Sub(y[1], Abs(Sub(y[h + 2 - k], y[1])))]
      last == [k \in 1 .. h |-> Add(y[n], Abs(Sub(y[n - k], y[n])))]
  IN  TLCEval(first \o y \o last)
SgScale(order, deriv, rate) == FMul(PowR(rate, deriv), Int2R(Fact(deriv)))
SgOut(y, window, order, deriv, rate) ==
  LET h == (window - 1) \div 2
      padded == Padded(y, h)
      ws == SgWeights(h, order, deriv)
      scale == SgScale(order, deriv, rate)
  IN  TLCEval([k \in 1 .. Len(y) |-> FMul(scale, Div(SgSum(ws, padded, k, 2 * h), ws[0].den))])

\* the size of the samples that have a part in the k-th answer
RECURSIVE Largest(_, _, _)
Largest(y, a, b) == IF a = b THEN Abs(y[a]) ELSE LET m == (a + b) \div 2 IN MaxR(Largest(y, a, m), Largest(y, m + 1, b))
Around(y, k, h) == Largest(y, IF k - h < 1 THEN 1 ELSE k - h, IF k + h > Len(y) THEN Len(y) ELSE k + h)
Dust == TenTo(-7)     \* the fixed point numbers themselves are rounded
JudgeSavgol(ev) ==
  LET usable == Usable(ev.window, ev.order)
      tol == FMul(Tol8, Add(One, Abs(SgScale(ev.order, ev.deriv, ev.rate))))
  IN  IF ev.accepted # usable THEN {IF usable THEN "C24:usable window rejected" ELSE "C24:unusable window accepted"}
      ELSE IF ~usable THEN {}
      ELSE IF ~ev.fin \/ Len(ev.out) # Len(ev.y) THEN {"C24:filtered signal has another length"}
      ELSE LET want == SgOut(ev.y, ev.window, ev.order, ev.deriv, ev.rate) IN
           Flag(\E k \in 1 .. Len(ev.y) : ~Near(ev.out[k], want[k], FMul(tol, Add(Dust, Around(ev.y, k, ev.window)))), "C24:wrong filtered value")

(* ---- moving average ---- *)
RECURSIVE SumRange(_, _, _)
SumRange(x, a, b) == IF a > b THEN Zero ELSE Add(IF a >= 1 /\ a <= Len(x) THEN x[a] ELSE Zero, SumRange(x, a + 1, b))
Average(x, N) == TLCEval([k \in 1 .. Len(x) |-> Div(SumRange(x, k - (N \div 2), k + ((N - 1) \div 2)), FromInt(N))])
JudgeAverage(ev) ==
  IF ~ev.fin \/ Len(ev.out) # Len(ev.x) THEN {"C24:average has another length"}
      ELSE LET want == Average(ev.x, ev.N) IN
           Flag(\E k \in 1 .. Len(ev.x) : ~Near(ev.out[k], want[k], FMul(Tol9, Add(Dust, Around(ev.x, k, ev.N)))), "C24:wrong moving average")

(* ---- nearest element: ev.idx counts from 0 ---- *)
JudgeNearest(ev) ==
  LET i == ev.idx + 1
      d(k) == Abs(Sub(ev.x[k], ev.v))
  IN  IF i \notin 1 .. Len(ev.x) THEN {"C24:index of the nearest element out of range"}
      ELSE Flag(ev.found # ev.x[i], "C24:nearest element and index do not belong together")
           \cup Flag(\E k \in 1 .. Len(ev.x) : Lt(d(k), d(i)), "C24:nearest element not found")
           \cup Flag(ev.ex /\ \E k \in 1 .. i - 1 : d(k) = d(i), "C24:not the first of several nearest elements")

(* ---- log-log interpolation: y at x1 (x2/x1)^(p/q) is y1 (y2/y1)^(p/q); all positive ---- *)
JudgeLogInterp(ev) ==
  LET r == FDiv(ev.out, ev.y1)
      t == FDiv(ev.y2, ev.y1)
      p == ev.p
      q == ev.q
  IN  IF ~ev.fin \/ ~IsPos(ev.out) THEN {"C24:interpolated value is not positive"}
      ELSE Flag(~IsPower(r, t, p, q, FMul(Tol8, r)), "C24:wrong interpolated value")

(* ---- wavelength and energy ---- *)
JudgeEnergy(ev) ==
  IF ~ev.fin THEN {"C24:energy is not finite"}
  ELSE Flag(~Near(FMul(ev.wl, ev.energy), Rat(123984, 100), Rat(1, 100)), "C24:wrong wavelength-energy product")
       \cup Flag(~Near(ev.back, ev.wl, FMul(Tol10, ev.wl)), "C24:conversions are not inverse")
=============================================================================
