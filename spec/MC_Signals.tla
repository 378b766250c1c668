----------------------------- MODULE MC_Signals -----------------------------
(* Colours (C23) and signal helpers (C24) over all small arguments: the     *)
(* judges' formulas are checked against what they are for, and the results  *)
(* are printed, to be compared with the code's.                             *)
EXTENDS JudgeSignals, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "colour", "savgol", "average", "nearest", "interp", "energy" >>, from |-> 360, to |-> 780, step |-> 5, n |-> 4, window |-> 6, order |-> 3]

VARIABLES mode, x, over
vars == << mode, x, over >>

Signals(vals, lo, hi) == UNION {[1 .. n -> vals] : n \in lo .. hi}
Waves == {w \in Conf.from .. Conf.to : w % Conf.step = 0} \cup {379, 380, 381, 439, 440, 441, 489, 490, 491, 509, 510, 511, 579, 580, 581, 644, 645, 646, 749, 750, 751}
Gammas == {<< 4, 5 >>, << 1, 1 >>, << 1, 2 >>, << 2, 1 >>}
Limits == {<< 380, 750 >>, << 300, 900 >>, << 400, 700 >>, << 450, 760 >>, << 370, 640 >>}
Max2(a, b) == IF a > b THEN a ELSE b
Cases(m) ==
  CASE m = "colour"  -> {[wl |-> w, lim |-> l, g |-> g] : w \in Waves, l \in Limits, g \in Gammas}
    [] m = "savgol"  -> UNION {{[y |-> y, window |-> w, order |-> o, deriv |-> d, rate |-> r] :
                          y \in IF Usable(w, o) THEN Signals({0, 1, -2}, (w \div 2) + 1, Max2(Conf.n, (w \div 2) + 1)) ELSE {<< 0, 1, -2, 1 >>},
                          d \in {j \in 0 .. 2 : j <= o}, r \in {1, 2}} : w \in 0 .. Conf.window, o \in 0 .. Conf.order}
    [] m = "average" -> UNION {{[y |-> y, N |-> N] : N \in 1 .. Len(y)} : y \in Signals({0, 1, -2}, 1, Conf.n + 1)}
    [] m = "nearest" -> {[y |-> y, v |-> v] : y \in Signals(-1 .. 2, 1, Conf.n), v \in -4 .. 6}        \* looked for: v / 2
    [] m = "interp"  -> {[xs |-> xs, ys |-> ys, z |-> z] : xs \in {s \in [1 .. 3 -> 0 .. 5] : s[1] < s[2] /\ s[2] < s[3]},
                                                         ys \in [1 .. 3 -> -2 .. 2], z \in 0 .. 5}
    [] m = "energy"  -> {[wl |-> w] : w \in 1 .. 40}

Segment == IF x.z <= x.xs[2] THEN 1 ELSE 2
Rise == (x.z - x.xs[Segment]) * (x.ys[Segment + 1] - x.ys[Segment])
Run == x.xs[Segment + 1] - x.xs[Segment]
Init == /\ mode \in ToSet(Conf.modes)
        /\ x \in Cases(mode)
        /\ mode = "interp" => x.xs[1] <= x.z /\ x.z <= x.xs[3] /\ Rise % Run = 0
        /\ over = FALSE

RealsOf(y) == TLCEval([k \in 1 .. Len(y) |-> Int2R(y[k])])
Times(n) == IF n >= 0 THEN PowR(Two, n) ELSE PowR(Rat(1, 2), -n)
\* the largest r with r^b <= y, between lo and hi
RECURSIVE Root(_, _, _, _)
Root(y, b, lo, hi) == IF Le(Sub(hi, lo), << 1 >>) THEN lo
                      ELSE LET m == Div(Add(lo, hi), FromInt(2)) IN IF Le(PowR(m, b), y) THEN Root(y, b, m, hi) ELSE Root(y, b, lo, m)
Power(v, a, b) == IF v = Zero \/ v = One THEN v ELSE IF b = 1 THEN PowR(v, a) ELSE Root(PowR(v, a), b, Zero, One)
Wave == Clamped(Int2R(x.wl), Int2R(x.lim[1]), Int2R(x.lim[2]))
Nearest0 == CHOOSE i \in 1 .. Len(x.y) :
              /\ \A k \in 1 .. Len(x.y) : (2 * x.y[i] - x.v) * (2 * x.y[i] - x.v) <= (2 * x.y[k] - x.v) * (2 * x.y[k] - x.v)
              /\ \A k \in 1 .. i - 1 : (2 * x.y[i] - x.v) * (2 * x.y[i] - x.v) < (2 * x.y[k] - x.v) * (2 * x.y[k] - x.v)
Result ==
  CASE mode = "colour"  -> IF In(Wave, 380, 750) THEN [k \in 1 .. 3 |-> Power(Bases(Wave)[k], x.g[1], x.g[2])] ELSE Bases(Wave)
    [] mode = "savgol"  -> IF Usable(x.window, x.order) THEN SgOut(RealsOf(x.y), x.window, x.order, x.deriv, Int2R(x.rate)) ELSE << >>
    [] mode = "average" -> Average(RealsOf(x.y), x.N)
    [] mode = "nearest" -> << Int2R(Nearest0 - 1), Int2R(x.y[Nearest0]) >>
    [] mode = "interp"  -> << Times(x.ys[Segment] + Rise \div Run) >>
    [] mode = "energy"  -> << Div(Rat(123984, 100), FromInt(x.wl)) >>

Done == /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([mode |-> mode, x |-> x, out |-> Result, usable |-> IF mode = "savgol" THEN Usable(x.window, x.order) ELSE TRUE]))
        /\ UNCHANGED << mode, x >>
Spec == Init /\ [][Done]_vars

(* ------------------------------ the laws ---------------------------- *)
Is(m) == mode = m /\ over
VMax(v) == MaxR(v[1], MaxR(v[2], v[3]))
Hue(w) == LET b == Bases(Int2R(w)) IN b
C(r, g, b) == << r, g, b >>
Third == Rat(3, 10)
Nodes == /\ Hue(380) = C(Third, Zero, Third) /\ Hue(440) = C(Zero, Zero, One) /\ Hue(490) = C(Zero, One, One)
         /\ Hue(510) = C(Zero, One, Zero) /\ Hue(580) = C(One, One, Zero) /\ Hue(645) = C(One, Zero, Zero) /\ Hue(750) = C(Third, Zero, Zero)
         /\ Hue(300) = C(Third, Zero, Third) /\ Hue(900) = C(Third, Zero, Zero)
Colour == Is("colour") => LET b == Bases(Wave) IN
  /\ Nodes
  /\ \A k \in 1 .. 3 : Within(b[k], Zero, One) /\ Within(Result[k], Zero, One)
  /\ JudgeColour([fin |-> TRUE, rgb |-> Result, wl |-> Int2R(x.wl), floor |-> Int2R(x.lim[1]), ceil |-> Int2R(x.lim[2]), ga |-> x.g[1], gb |-> x.g[2]]) = {}
  /\ \E k \in 1 .. 3 : b[k] = Zero                                                                  \* a pure hue
  /\ In(Wave, 440, 645) => VMax(b) = One                                                            \* full brightness in between
  /\ ~In(Wave, 440, 645) => VMax(b) = (IF Lt(Wave, Int2R(380)) \/ Lt(Int2R(750), Wave) THEN Third ELSE IF Lt(Wave, Int2R(440)) THEN FadeLow(Wave) ELSE FadeHigh(Wave))
  /\ VNear(b, Bases(Add(Wave, One)), Rat(1, 19))                                                    \* no jumps
Moments == Is("savgol") /\ Usable(x.window, x.order) =>
  LET h == (x.window - 1) \div 2
      ws == SgWeights(h, x.order, x.deriv)
      moment(i) == SgSum(ws, [k \in 1 .. 2 * h + 1 |-> IPow(k - 1 - h, i)], 1, 2 * h)
  IN  \A i \in 0 .. x.order : moment(i) = IF i = x.deriv THEN ws[0].den ELSE << >>
\* what the smoothing leaves over is orthogonal to all polynomials of the order
LeastSquares == Is("savgol") /\ Usable(x.window, x.order) /\ x.deriv = 0 /\ Len(x.y) >= x.window =>
  LET h == (x.window - 1) \div 2
      ys == [k \in 1 .. x.window |-> FromInt(x.y[k])]
      fit == [d \in 0 .. x.order |-> SgSum(SgWeights(h, x.order, d), ys, 1, 2 * h)]        \* coefficients, times the denominators
      den == [d \in 0 .. x.order |-> SgWeights(h, x.order, d)[0].den]
      RECURSIVE Poly(_, _)
      Poly(k, d) == IF d < 0 THEN << >> ELSE Add(Mul(Mul(fit[d], IPow(k, d)), Div(den[0], den[d])), Poly(k, d - 1))
      left(k) == Sub(Mul(den[0], ys[k + h + 1]), Poly(k, x.order))
      RECURSIVE Dot1(_, _)
      Dot1(i, k) == IF k > h THEN << >> ELSE Add(Mul(left(k), IPow(k, i)), Dot1(i, k + 1))
  IN  (\A d \in 0 .. x.order : den[d] = den[0]) => \A i \in 0 .. x.order : Dot1(i, -h) = << >>
Smooth == Is("savgol") /\ Usable(x.window, x.order) =>
  JudgeSavgol([accepted |-> TRUE, fin |-> TRUE, y |-> RealsOf(x.y), out |-> Result, window |-> x.window, order |-> x.order, deriv |-> x.deriv,
               rate |-> Int2R(x.rate), big |-> Two]) = {}
Constant == Is("savgol") /\ Usable(x.window, x.order) /\ (\A k \in 1 .. Len(x.y) : x.y[k] = x.y[1]) =>
  \A k \in 1 .. Len(x.y) : Near(Result[k], IF x.deriv = 0 THEN Int2R(x.y[1]) ELSE Zero, Tol12)
RECURSIVE Total(_, _)
Total(y, k) == IF k = 0 THEN Zero ELSE Add(y[k], Total(y, k - 1))
Mean == Is("average") =>
  /\ x.N = 1 => Result = RealsOf(x.y)
  /\ \A k \in 1 .. Len(x.y) : (k > x.N \div 2 /\ k + (x.N - 1) \div 2 <= Len(x.y)) =>
        \* between the least and the greatest of the window
        \E i, j \in k - (x.N \div 2) .. k + (x.N - 1) \div 2 : Le(Sub(Int2R(x.y[i]), Tol12), Result[k]) /\ Le(Result[k], Add(Int2R(x.y[j]), Tol12))
  /\ (x.N % 2 = 1 /\ x.N <= Len(x.y)) => Result[(x.N \div 2) + 1] = Div(Total(RealsOf(x.y), x.N), FromInt(x.N))
  /\ (x.N % 2 = 0) => Result[(x.N \div 2) + 1] = Div(Total(RealsOf(x.y), x.N), FromInt(x.N))
First == Is("nearest") =>
  JudgeNearest([x |-> RealsOf(x.y), v |-> Rat(x.v, 2), idx |-> Nearest0 - 1, found |-> Int2R(x.y[Nearest0]), ex |-> TRUE]) = {}
LogLog == Is("interp") =>
  /\ JudgeLogInterp([fin |-> TRUE, out |-> Result[1], y1 |-> Times(x.ys[Segment]), y2 |-> Times(x.ys[Segment + 1]), p |-> x.z - x.xs[Segment], q |-> Run]) = {}
  /\ \A k \in 1 .. 3 : x.z = x.xs[k] => Result[1] = Times(x.ys[k])                                   \* through the table's points
=============================================================================
