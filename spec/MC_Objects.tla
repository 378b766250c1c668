----------------------------- MODULE MC_Objects -----------------------------
(* Construction (C25), the image source (C17) and drawn outlines (C26) over *)
(* small parameter sets: the judges' formulas are checked against what they *)
(* are for, and the results are printed, to be compared with the code's.    *)
EXTENDS JudgeObjects, JudgeSources, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "round", "rectangle", "name", "image", "rim", "corners", "axes", "patch" >>, k |-> 1, res |-> 4, d |-> 14]

Cube(k) == [1 .. 3 -> -k .. k]
Vectors(k) == Cube(k) \ {<< 0, 0, 0 >>}
ZDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
ZCross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
IV(v) == << Int2R(v[1]), Int2R(v[2]), Int2R(v[3]) >>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
Max2(a, b) == IF a > b THEN a ELSE b

VARIABLES mode, x, over
vars == << mode, x, over >>

Maybe(S) == {<< >>} \cup {<< s >> : s \in S}
Kinds == {"mirror shape", "lens shape", "grating shape", "detector shape", "solid behaviour", "refraction", "reflection"}
Names == UNION {Known(k) : k \in Kinds} \cup {"", "flat", "circular", "Reflect", "refracts", "mirror", "ideal", "normal", "dmd", "spherical_flat",
           "circular_flat ", "concave", "snell", "specular", "none", "thin lens", "absorb", "circularflat", "Rectangular_flat", "rectangular_flat_"}
Intervals == {<< 0, 1 >>, << -2, 2 >>, << 1, -1 >>, << 3, 8 >>, << -1, 0 >>, << 10, 12 >>, << -9, -4 >>}
Figures == {<< << 1, 0 >>, << 0, 1 >>, << -1, -1 >> >>, << << 3, 1 >>, << 5, 1 >>, << 5, 2 >>, << 3, 2 >> >>, << << 2, 0 >>, << 0, 1 >>, << 0, 0 >> >>}
Cases(m) ==
  CASE m = "round"     -> {[R |-> R, D |-> D] : R \in Maybe(0 .. 6), D \in Maybe({-2, 0, 1, 2, 3, 4, 6, 8, 12})}
    [] m = "rectangle" -> {[n |-> n, t |-> t, h |-> h, w |-> w] : n \in Vectors(1), t \in Vectors(Conf.k), h \in Maybe({-1, 0, 2}), w \in Maybe({-2, 0, 3})}
    [] m = "name"      -> {[kind |-> k, name |-> n] : k \in Kinds, n \in Names}
    [] m = "image"     -> {[xr |-> a, zr |-> b, ar |-> c, size |-> s * 2 * Lcm(Max2(a - 1, 1), Max2(b - 1, 1)), d |-> d] :
                             a \in 1 .. Conf.res, b \in 1 .. Conf.res, c \in {1, 2, 3, 5}, s \in {1, 2}, d \in 0 .. Conf.d}
    [] m = "rim"       -> {[n |-> n, c |-> c, R |-> R] : n \in Vectors(Conf.k), c \in {<< 0, 0, 0 >>, << 2, -3, 5 >>}, R \in {1, 4}}
    [] m = "corners"   -> {[n |-> n, t |-> t, h |-> s[1], w |-> s[2], c |-> c] : n \in Vectors(1), t \in Vectors(Conf.k), s \in {<< 2, 2 >>, << 2, 6 >>, << 8, 2 >>},
                             c \in {<< 0, 0, 0 >>, << 2, -3, 5 >>}}
    [] m = "patch"     -> {[n |-> n, c |-> c, z |-> z, flat |-> f] : n \in Vectors(Conf.k), c \in {<< 0, 0, 0 >>, << 2, -3, 5 >>}, z \in {0, 2}, f \in Figures}
    [] m = "axes"      -> {[l |-> l] : l \in [1 .. 3 -> Intervals]}

Init == /\ mode \in ToSet(Conf.modes)
        /\ x \in Cases(mode)
        /\ mode = "corners" => ZDot(x.n, x.t) = 0
        /\ IF mode # "round" THEN TRUE ELSE IF x.R # << >> THEN TRUE ELSE IF x.D = << >> THEN TRUE ELSE x.D[1] >= 0          \* nothing is said about a negative diameter
        /\ over = FALSE

RealOf(s) == IF s = << >> THEN << >> ELSE << Int2R(s[1]) >>
Skew == ZDot(x.n, x.t) # 0
\* two directions across the normal
Across == LET u == IF x.n[1] # 0 \/ x.n[2] # 0 THEN << x.n[2], -x.n[1], 0 >> ELSE << 1, 0, 0 >> IN << VUnit(IV(u)), VUnit(IV(ZCross(x.n, u))) >>
Turns == << << 5, 0 >>, << 4, 3 >>, << 3, 4 >>, << 0, 5 >>, << -3, 4 >>, << -4, 3 >>, << -5, 0 >>, << -4, -3 >>, << -3, -4 >>, << 0, -5 >>, << 3, -4 >>, << 4, -3 >> >>
Rim == [k \in 1 .. 12 |-> VAdd(IV(x.c), VAdd(VScale(Rat(Turns[k][1] * x.R, 5), Across[1]), VScale(Rat(Turns[k][2] * x.R, 5), Across[2])))]
\* a figure laid along two directions across the normal (the second one a quarter turn on from the first) and moved
Laid(a, b) == [k \in 1 .. Len(x.flat) |-> VAdd(VAdd(IV(x.c), << Zero, Zero, Int2R(x.z) >>),
                                               VAdd(VScale(Int2R(x.flat[k][1]), a), VScale(Int2R(x.flat[k][2]), b)))]
AsPatch(pts) == [fin |-> TRUE, n |-> IV(x.n), off |-> VAdd(IV(x.c), << Zero, Zero, Int2R(x.z) >>), pts |-> pts,
                 flat |-> [k \in 1 .. Len(x.flat) |-> << Int2R(x.flat[k][1]), Int2R(x.flat[k][2]) >>]]
Ring == Corners(IV(x.c), VUnit(IV(x.n)), VUnit(IV(x.t)), Int2R(x.h), Int2R(x.w))
GridX(i) == IF x.xr = 1 THEN 0 ELSE ((2 * i - x.xr + 1) * x.size) \div (2 * (x.xr - 1))      \* whole numbers
GridZ(j) == IF x.zr = 1 THEN 0 ELSE ((2 * j - x.zr + 1) * x.size) \div (2 * (x.zr - 1))
Fan(k) == IF x.ar = 1 THEN 0 ELSE 2 * k - x.ar + 1                                          \* in units of angle / (ar - 1)
Red1(i, j) == 4 * (GridX(i) * GridX(i) + GridZ(j) * GridZ(j)) <= x.d * x.d
Image == {<< GridX(i), GridZ(j), Fan(k), IF Red1(i, j) THEN 680 ELSE 450 >> : i \in 0 .. x.xr - 1, j \in 0 .. x.zr - 1, k \in 0 .. x.ar - 1}
Limits == [i \in 1 .. 3 |-> << Int2R(x.l[i][1]), Int2R(x.l[i][2]) >>]
Equal == [i \in 1 .. 3 |-> << Sub(AxisMid(Limits[i]), Half(LargestSpan(Limits))), Add(AxisMid(Limits[i]), Half(LargestSpan(Limits))) >>]

Result ==
  CASE mode = "round"     -> LET m == RoundMust(RealOf(x.R), RealOf(x.D), TRUE) IN
                             [accept |-> m, out |-> IF m = "yes" THEN << RadiusOf(RealOf(x.R), RealOf(x.D)), DiameterOf(RealOf(x.R), RealOf(x.D)) >> ELSE << >>]
    [] mode = "rectangle" -> [accept |-> RectangleMust(IV(x.n), IV(x.t), RealOf(x.h), RealOf(x.w)), out |-> << >>]
    [] mode = "name"      -> [accept |-> IF x.name \in Known(x.kind) THEN "yes" ELSE "no", out |-> << >>]
    [] mode = "image"     -> [accept |-> "yes", out |-> SetToSeq(Image)]
    [] mode = "rim"       -> [accept |-> "yes", out |-> Rim]
    [] mode = "patch"     -> [accept |-> "yes", out |-> Laid(Across[1], Across[2])]
    [] mode = "corners"   -> [accept |-> "yes", out |-> Ring]
    [] mode = "axes"      -> [accept |-> "yes", out |-> Equal]
Done == /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([mode |-> mode, x |-> x, result |-> Result]))
        /\ UNCHANGED << mode, x >>
Spec == Init /\ [][Done]_vars

(* ------------------------------ the laws ---------------------------- *)
Is(m) == mode = m /\ over
Round == Is("round") =>
  LET r == Result IN
  /\ r.accept \in {"yes", "no"}                                                              \* whole numbers leave no doubt
  /\ r.accept = "yes" => /\ r.out[2] = Mul(FromInt(2), r.out[1])                             \* consistent
                         /\ (x.R # << >> => r.out[1] = Int2R(x.R[1])) /\ (x.D # << >> => r.out[2] = Int2R(x.D[1]))      \* as given
                         /\ RoundMust(<< r.out[1] >>, << r.out[2] >>, TRUE) = "yes"
  /\ r.accept = "no" <=> (x.R = << >> /\ x.D = << >>) \/ (x.R # << >> /\ x.D # << >> /\ x.D[1] # 2 * x.R[1])
Rectangles == Is("rectangle") =>
  (Result.accept = "yes" <=> (x.h # << >> /\ x.w # << >> /\ ~Skew /\ x.h[1] >= 0 /\ x.w[1] >= 0)) /\ Result.accept # "may"
NamesApart == Is("name") => \A k \in Kinds : Known(k) # {} /\ (k # x.kind /\ x.kind \notin {"grating shape", "detector shape", "mirror shape"} => Known(k) \cap Known(x.kind) = {})
\* an accepted rectangle has right angles, sides of the given lengths, lies across its normal and around its centre
Sides == Is("corners") => LET r == Ring IN
  /\ \A k \in 1 .. 4 : Near(FDot(VSub(r[k], IV(x.c)), IV(x.n)), Zero, Tol12)
  /\ VNear(VAdd(r[1], r[3]), VScale(Two, IV(x.c)), Tol12) /\ VNear(VAdd(r[2], r[4]), VScale(Two, IV(x.c)), Tol12)
  /\ Near(VDist(r[1], r[2]), Int2R(x.w), Tol12) /\ Near(VDist(r[2], r[3]), Int2R(x.h), Tol12)
  /\ Near(FDot(VSub(r[2], r[1]), VSub(r[3], r[2])), Zero, Tol12)
  /\ VNear(VCross(VSub(r[3], r[2]), IV(x.t)), VZero, Tol11)                                  \* h is the extent along the tangent
  /\ JudgeCorners([fin |-> TRUE, c |-> IV(x.c), n |-> IV(x.n), tan |-> IV(x.t), h |-> Int2R(x.h), w |-> Int2R(x.w), pts |-> r]) = {}
Round2 == Is("rim") => LET r == Rim IN
  \A k \in 1 .. 12 : Near(VDist(r[k], IV(x.c)), Int2R(x.R), Tol12) /\ Near(FDot(VSub(r[k], IV(x.c)), IV(x.n)), Zero, Tol12)
\* a figure may lie in its plane any way round, but neither mirrored, stretched nor beside its place
Figure == Is("patch") =>
  /\ JudgePatch(AsPatch(Laid(Across[1], Across[2]))) = {} /\ JudgePatch(AsPatch(Laid(Across[2], VNeg(Across[1])))) = {}
  /\ JudgePatch(AsPatch(Laid(Across[2], Across[1]))) # {}
  /\ JudgePatch(AsPatch(Laid(VScale(Rat(101, 100), Across[1]), Across[2]))) # {}
  /\ JudgePatch([AsPatch(Laid(Across[1], Across[2])) EXCEPT !.off = VAdd(@, VScale(Rat(1, 1000), Across[1]))]) # {}
  /\ JudgePatch([AsPatch(Laid(Across[1], Across[2])) EXCEPT !.n = VNeg(@)]) # {}
\* one of everything, symmetric, evenly spread, red in the middle only
Images == Is("image") =>
  /\ Cardinality(Image) = x.xr * x.zr * x.ar
  /\ \A p \in Image : << -p[1], p[2], p[3], p[4] >> \in Image /\ << p[1], -p[2], p[3], p[4] >> \in Image /\ << p[1], p[2], -p[3], p[4] >> \in Image
  /\ \A i \in 1 .. x.xr - 2 : 2 * GridX(i) = GridX(i - 1) + GridX(i + 1)
  /\ (x.xr > 1 => 2 * GridX(0) = -x.size) /\ (x.zr > 1 => 2 * GridZ(0) = -x.size)
  /\ \A i \in 0 .. x.xr - 1 : Int2R(GridX(i)) = Spread(Half(Int2R(x.size)), x.xr, i)
  /\ \A i \in 0 .. x.xr - 1, j \in 0 .. x.zr - 1 : Red1(i, j) = Red(Int2R(GridX(i)), Int2R(GridZ(j)), Int2R(x.d))
  /\ \A p, q \in Image : (p[4] = 680 /\ q[4] = 450) => p[1] * p[1] + p[2] * p[2] < q[1] * q[1] + q[2] * q[2]
Axes == Is("axes") => LET e == Equal IN
  /\ JudgeEqualAxes([before |-> Limits, after |-> e]) = {}
  /\ \E i \in 1 .. 3 : AxisSpan(Limits[i]) = AxisSpan(e[i])                                  \* one axis keeps its span
  /\ \A i \in 1 .. 3 : Le(e[i][1], MinR(Limits[i][1], Limits[i][2])) /\ Le(MaxR(Limits[i][1], Limits[i][2]), e[i][2])      \* nothing drops out of sight
=============================================================================
