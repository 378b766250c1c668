---------------------------- MODULE JudgeObjects ----------------------------
(* Construction (C25), frames (C15) and drawing (C26).                      *)
EXTENDS JudgeVectors

(* ---- construction ---- *)
\* a number or "none" is given as a sequence of no or one real
None(x) == Len(x) = 0

\* must a round shape be accepted; and what its radius and diameter then are
RoundMust(R, D, ex) ==
  LET both == ~None(R) /\ ~None(D)
      gap == IF both THEN Abs(Sub(D[1], Mul(FromInt(2), R[1]))) ELSE Zero
      big == IF both THEN MaxR(One, MaxR(Abs(D[1]), Abs(R[1]))) ELSE One
  IN  IF None(R) /\ None(D) THEN "no"
      ELSE IF ~both \/ gap = Zero \/ (~ex /\ Le(gap, FMul(Tol10, big))) THEN "yes"
      ELSE IF Lt(FMul(Tol6, big), gap) THEN "no" ELSE "may"
RadiusOf(R, D) == IF None(R) THEN Half(D[1]) ELSE R[1]
DiameterOf(R, D) == IF None(D) THEN Mul(FromInt(2), R[1]) ELSE D[1]

\* a round shape: ev.R, ev.D as given, ev.gotR, ev.gotD attributes of the accepted shape
JudgeRound(ev) ==
  LET must == RoundMust(ev.R, ev.D, ev.ex)
      R == RadiusOf(ev.R, ev.D)
      D == DiameterOf(ev.R, ev.D)
  IN  Flag(must = "no" /\ ev.accepted, "C25:contradicting or missing radius and diameter accepted")
      \cup Flag(must = "yes" /\ ~ev.accepted, "C25:consistent radius and diameter rejected")
      \cup Flag(must = "yes" /\ ev.accepted /\ (~Near(ev.gotR, R, FMul(Tol10, Add(One, Abs(R)))) \/ ~Near(ev.gotD, D, FMul(Tol10, Add(One, Abs(D))))),
                "C25:radius and diameter not completed")

SizesGiven(h, w) == ~None(h) /\ ~None(w) /\ ~IsNegative(h[1]) /\ ~IsNegative(w[1])
RectangleMust(n, tan, h, w) ==
  LET skew == Abs(FDot(VUnit(n), VUnit(tan)))
  IN  IF ~SizesGiven(h, w) \/ Lt(Tol6, skew) THEN "no" ELSE IF Le(skew, Tol9) THEN "yes" ELSE "may"
JudgeRectangle(ev) ==
  LET must == RectangleMust(ev.n, ev.tan, ev.h, ev.w)
  IN  Flag(must = "no" /\ ev.accepted, IF SizesGiven(ev.h, ev.w) THEN "C25:tangent not perpendicular to the normal accepted" ELSE "C25:missing or negative size accepted")
      \cup Flag(must = "yes" /\ ~ev.accepted, "C25:valid rectangle rejected")

\* names: ev.kind of object, ev.name given, ev.accepted
Known(kind) ==
  CASE kind = "mirror shape"  -> {"circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical"}
    [] kind = "lens shape"    -> {"spherical_biconvex", "spherical"}
    [] kind = "grating shape" -> {"rectangular_flat"}
    [] kind = "detector shape" -> {"rectangular_flat"}
    [] kind = "solid behaviour" -> {"reflect", "refract"}
    [] kind = "refraction"    -> {"thin_lens", "ideal_collimate", "ideal_focus", "snells_law"}
    [] kind = "reflection"    -> {"specular_flat", "grating"}
JudgeName(ev) ==
  Flag(ev.accepted /\ ev.name \notin Known(ev.kind), "C25:unknown " \o ev.kind \o " accepted")
  \cup Flag(~ev.accepted /\ ev.name \in Known(ev.kind), "C25:known " \o ev.kind \o " rejected")

(* ---- frames: nothing but the allowed items may change ---- *)
JudgeFrame(ev) ==
  {ev.prop \o ":" \o ev.what \o " changed " \o ev.items[k].name :
     k \in {j \in 1 .. Len(ev.items) : ev.items[j].before # ev.items[j].after /\ ~ev.items[j].may}}

\* two rays with the same launch through the same scene: exactly the same path
JudgeTwin(ev) == Flag(ev.a # ev.b, "C15:path depends on what happened before")

\* what is left out: numbers are given as the texts of decimal numbers
Defaults == [ray_wavelength |-> "532.0", ray_order |-> "0.0", ray_type |-> "normal", ray_blocked |-> "False", lens_index |-> "1.5", solid_index |-> "1.5",
             solid_behaviour |-> "reflect", mirror_shape |-> "circular_flat", mirror_kind |-> "normal", lens_shape |-> "spherical_biconvex",
             lens_kind |-> "normal", grating_shape |-> "rectangular_flat", detector_shape |-> "rectangular_flat", detector_hits |-> "0.0",
             profiling_rays |-> "1000.0", image_rays |-> "363.0", image_half_size |-> "5.0", image_angle |-> "0.2", image_red_disc |-> "2.5", index_of_the_world |-> "1.0"]
JudgeDefault(ev) ==
  IF ev.what \notin DOMAIN Defaults THEN {"C25:no such default"}
  ELSE Flag(ev.value # Defaults[ev.what], "C25:parameter left out takes another value")

(* ---- drawing ---- *)
\* twice the area enclosed by a polygon around c, seen along n
RECURSIVE Area2(_, _, _, _)
Area2(pts, c, n, k) ==
  IF k = 0 THEN Zero
  ELSE Add(FDot(n, VCross(VSub(pts[k], c), VSub(pts[IF k = Len(pts) THEN 1 ELSE k + 1], c))), Area2(pts, c, n, k - 1))

JudgeCircle(ev) ==
  LET n == VUnit(ev.n)
      tol == FMul(Tol3, ev.R)
      fine == FMul(Tol7, Add(Add(One, ev.R), VMaxAbs(ev.c)))
      p == ev.pts
  IN  IF ~ev.fin \/ Len(p) < 8 THEN {"C26:no outline drawn"}
      ELSE Flag(\E k \in 1 .. Len(p) : Lt(fine, Abs(FDot(VSub(p[k], ev.c), n))), "C26:outline outside the optic's plane")
           \cup Flag(\E k \in 1 .. Len(p) : Lt(Add(tol, fine), Abs(Sub(VDist(p[k], ev.c), ev.R))), "C26:outline is not the optic's rim")
           \cup Flag(~Near(Abs(Area2(p, ev.c, n, Len(p))), FMul(TwoPi, Sq(ev.R)), Add(FMul(Rat(1, 10), Sq(ev.R)), fine)), "C26:outline does not go round the rim")

\* the corners in their order round the rectangle
Corners(c, n, t, h, w) ==
  LET u == VCross(n, t)
      corner(i, j) == VAdd(c, VAdd(VScale(Half(FMul(Int2R(i), h)), t), VScale(Half(FMul(Int2R(j), w)), u)))
  IN  << corner(1, -1), corner(1, 1), corner(-1, 1), corner(-1, -1) >>
JudgeCorners(ev) ==
  LET tol == FMul(Tol8, Add(Add(One, Add(ev.h, ev.w)), VMaxAbs(ev.c)))
      ring == Corners(ev.c, VUnit(ev.n), VUnit(ev.tan), ev.h, ev.w)
      p == ev.pts
      m == IF Len(p) = 5 /\ VNear(p[1], p[5], tol) THEN 4 ELSE Len(p)
      at(s, dir, k) == ring[(((s - 1) + dir * (k - 1) + 8) % 4) + 1]
  IN  IF ~ev.fin \/ m # 4 THEN {"C26:no rectangle drawn"}
      ELSE Flag(~\E s \in 1 .. 4, dir \in {1, -1} : \A k \in 1 .. 4 : VNear(p[k], at(s, dir, k), tol), "C26:drawn rectangle is not the optic's")

\* patches of a sphere: all their corners on the sphere, reaching to both sides in every direction
JudgeBall(ev) ==
  LET p == ev.pts
      tol == FMul(Tol8, Add(Add(One, ev.R), VMaxAbs(ev.c)))
      reach(i, s) == \E k \in 1 .. Len(p) : Lt(FMul(Rat(9, 10), ev.R), FMul(Int2R(s), Sub(p[k][i], ev.c[i])))
  IN  IF ~ev.fin \/ Len(p) = 0 THEN {"C26:no sphere drawn"}
      ELSE Flag(\E k \in 1 .. Len(p) : Lt(tol, Abs(Sub(VDist(p[k], ev.c), ev.R))), "C26:drawn sphere is not the optic's")
           \cup Flag(\E i \in 1 .. 3, s \in {1, -1} : ~reach(i, s), "C26:sphere drawn only in part")
           \cup Flag(~Near(ev.area, FMul(FMul(Two, TwoPi), Sq(ev.R)), FMul(Rat(3, 5), Sq(ev.R))), "C26:drawn sphere has gaps or overlaps")

\* a plane figure carried into space: turned (not mirrored) about the origin until its plane's normal, z, is n, then moved by `off`.
\* All figures in the plane are given by their scalar and cross products with the farthest corner.
FlatDot(a, b) == Add(FMul(a[1], b[1]), FMul(a[2], b[2]))
FlatCross(a, b) == Sub(FMul(a[1], b[2]), FMul(a[2], b[1]))
JudgePatch(ev) ==
  LET n == VUnit(ev.n)
      m == Len(ev.flat)
      sq == TLCEval([k \in 1 .. m |-> FlatDot(ev.flat[k], ev.flat[k])])
      far == CHOOSE a \in 1 .. m : \A k \in 1 .. m : Le(sq[k], sq[a])
      R == FSqrt(sq[far])
      q == TLCEval([k \in 1 .. Len(ev.pts) |-> VSub(ev.pts[k], ev.off)])
      fine == FMul(Tol10, Add(R, VMaxAbs(ev.off)))
      tol == Add(FMul(fine, R), FMul(fine, R))
  IN  IF ~ev.fin \/ Len(ev.pts) # m THEN {"C26:figure loses its corners in space"}
      ELSE Flag(\E k \in 1 .. m : Lt(fine, Abs(FDot(q[k], n))), "C26:figure not in the plane asked for")
           \cup Flag(\E k \in 1 .. m : ~Near(FDot(q[k], q[far]), FlatDot(ev.flat[k], ev.flat[far]), tol), "C26:figure changes its form in space")
           \cup Flag(\E k \in 1 .. m : ~Near(FDot(n, VCross(q[far], q[k])), FlatCross(ev.flat[far], ev.flat[k]), tol), "C26:figure mirrored in space")

\* a mirror seen along an axis: a mark where it is
JudgeMarker(ev) ==
  Flag(~ev.fin \/ Len(ev.pts) # 1, "C26:no mark drawn")
  \cup (IF ev.fin /\ Len(ev.pts) = 1
        THEN Flag(ev.pts[1] # << ev.c[1], ev.c[IF ev.view \in {"xy", "tangential"} THEN 2 ELSE 3] >>, "C26:mark is not where the optic is")
        ELSE {})

\* limits of the three axes before and after
AxisSpan(l) == Abs(Sub(l[2], l[1]))
AxisMid(l) == Half(Add(l[1], l[2]))
LargestSpan(ls) == MaxR(AxisSpan(ls[1]), MaxR(AxisSpan(ls[2]), AxisSpan(ls[3])))
JudgeEqualAxes(ev) ==
  LET big == LargestSpan(ev.before)
      tol == FMul(Tol9, Add(big, Add(TenTo(-6), MaxR(Abs(AxisMid(ev.before[1])), MaxR(Abs(AxisMid(ev.before[2])), Abs(AxisMid(ev.before[3])))))))
  IN  Flag(\E i \in 1 .. 3 : ~Near(AxisMid(ev.after[i]), AxisMid(ev.before[i]), tol), "C26:equal axes move a centre")
      \cup Flag(\E i \in 1 .. 3 : ~Near(AxisSpan(ev.after[i]), big, tol), "C26:axes not given the largest span")
=============================================================================
