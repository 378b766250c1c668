------------------------------- MODULE Shapes -------------------------------
(* Where the forward half-line of a ray meets the surface of a shape.       *)
(*                                                                          *)
(* A ray is a point p and a unit direction d.  Every answer is three-valued *)
(* ("yes", "no", "may"): "may" is given when the point lies so close to an  *)
(* edge, a tangent or a coincidence that floating point code may answer     *)
(* either way.  With ex = TRUE (exact worlds: all numbers are small         *)
(* integers or dyadic fractions, so that code and specification compute     *)
(* without rounding) there is no "may": edges, ties and tangents count.     *)
EXTENDS Real, FiniteSets, SequencesExt

\* A crossing nearer than Gap is the surface the ray is just leaving.
Gap     == Tol9
GapSafe == Tol7
Margin  == Tol7

Tri(sure, true) == IF ~sure THEN "may" ELSE IF true THEN "yes" ELSE "no"
TriAnd(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "may"

NoHit == [k |-> "no"]

\* x <= limit (or x < limit when strict), unsure within the margin
AtMost(x, limit, strict, ex) ==
  IF ex THEN Tri(TRUE, IF strict THEN Lt(x, limit) ELSE Le(x, limit))
        ELSE Tri(~Near(x, limit, Margin), Lt(x, limit))

\* distance t counts as "ahead"
Ahead(t, ex) == IF ex THEN Tri(TRUE, Lt(Gap, t)) ELSE IF Le(t, Tol10) THEN "no" ELSE IF Lt(GapSafe, t) THEN "yes" ELSE "may"

(* ---- flat shapes ---- *)
\* n must be a unit vector
PlaneMeet(c, n, p, d, ex) ==
  LET den == FDot(d, n) IN
  IF den = Zero \/ Le(Abs(den), Tol10) THEN NoHit
  ELSE LET t == FDiv(FDot(VSub(c, p), n), den)
           steep == IF ex \/ Lt(Tol5, Abs(den)) THEN "yes" ELSE "may"
           a == TriAnd(steep, Ahead(t, ex))
       IN  IF a = "no" THEN NoHit
           ELSE [k |-> a, t |-> t, pt |-> VAt(p, d, t), n |-> n, tol |-> FDiv(Tol8, MinR(One, Abs(den)))]

DiscMeet(c, n, R, p, d, ex) ==
  LET m == PlaneMeet(c, n, p, d, ex) IN
  IF m.k = "no" THEN m
  ELSE [m EXCEPT !.k = TriAnd(m.k, AtMost(VDist(m.pt, c), R, TRUE, ex))]

\* h is the extent along the tangent, w the extent across it; both edges belong to the rectangle
RectMeet(c, n, tan, h, w, p, d, ex) ==
  LET m == PlaneMeet(c, n, p, d, ex) IN
  IF m.k = "no" THEN m
  ELSE LET r == VSub(m.pt, c)
           u == Abs(FDot(r, tan))
           v == Abs(FDot(r, VCross(n, tan)))
       IN  [m EXCEPT !.k = TriAnd(m.k, TriAnd(AtMost(u, Half(h), FALSE, ex), AtMost(v, Half(w), FALSE, ex)))]

(* ---- sphere and infinite cylinder: the line enters at t0 and leaves at t1 ---- *)
\* all: the line runs inside for ever (along the axis of a cylinder)
NoCrossing == [n |-> 0, sure |-> TRUE, near |-> FALSE, t0 |-> Zero, t1 |-> Zero, tol |-> Zero, all |-> FALSE]

\* q is the vector from the ray's start to the centre, b = d.q, a = d.d (one for a sphere), disc the discriminant
\* scaled by 2^120
Roots(a, b, q2, disc, R) ==
  IF IsNegative(disc) THEN [NoCrossing EXCEPT !.t0 = FDiv(b, a), !.t1 = FDiv(b, a)]
  ELSE LET root == ISqrt(disc)
           tol == IF root = Zero THEN Tol8
                  ELSE Add(Tol8, FDiv(FMul(<< 1153 >>, MaxR(q2, Sq(R))), MaxR(<< 1 >>, FMul(root, a))))   \* << 1153 >> is 1e-15
       IN  [n |-> IF root = Zero THEN 1 ELSE 2, sure |-> TRUE, near |-> FALSE, all |-> FALSE,
            t0 |-> FDiv(Sub(b, root), a), t1 |-> FDiv(Add(b, root), a), tol |-> tol]

\* on a path, whose directions are known to some 1e-11
Quadric(a, b, q2, disc, R, ex) ==
  LET z == Roots(a, b, q2, disc, R)
      e == IF a = One THEN One ELSE FSqrt(a)
      size == FMul(e, Add(q2, Sq(R)))
      clear == ex \/ Lt(Mul(FMul(Tol9, size), One), Abs(disc))
      root == IF z.n = 0 THEN Zero ELSE ISqrt(disc)
      tol == IF root = Zero THEN Zero ELSE FDiv(FMul(Tol12, size), MaxR(<< 1 >>, FMul(root, a)))
  IN  [z EXCEPT !.sure = clear, !.near = ~clear, !.tol = IF ex THEN @ ELSE Add(@, tol)]

SphereLine(c, R, p, d, ex) ==
  LET q == VSub(c, p)
      b == FDot(d, q)
  IN  Quadric(One, b, FDot(q, q), Sub(Mul(b, b), Sub(RawDot(q, q), Mul(R, R))), R, ex)

\* The same when start and direction are known as exactly as doubles can be (arguments of a single call, not the
\* outcome of a path): e is the length of the part of the direction that matters, f the distance of start and centre.
\* The discriminant of doubles is wrong by no more than band.
FineQuadric(e, a, b, q, f, disc, R, ex) ==
  LET z == Roots(a, b, Sq(q), disc, R)
      raw == Add(Add(Mul(FMul(e, q), q), Mul(FMul(a, q), f)), Mul(FMul(a, R), R))
      band == Add(Div(raw, FromInt(100000000)), Div(Add(Mul(q, q), Mul(R, R)), FromInt(1000000000)))     \* 10^5 times the band
      clear == ex \/ Lt(Div(band, FromInt(100000)), Abs(disc))
      root == IF z.n = 0 THEN Zero ELSE ISqrt(disc)
      tol == IF z.n = 0 \/ root = Zero THEN Tol8
             ELSE Add(Tol8, Add(FDiv(FMul(TenTo(-14), Add(FMul(e, f), q)), a),
                      Add(Div(Div(FDiv(Div(band, root), a), FromInt(100000)), FromInt(2)), FDiv(FMul(TenTo(-14), MaxR(Abs(z.t0), Abs(z.t1))), e))))
  IN  [z EXCEPT !.sure = clear, !.near = ~clear, !.tol = IF ex THEN @ ELSE MaxR(@, tol)]
FineSphereLine(c, R, p, d, ex) ==
  LET q == VSub(c, p)
      b == FDot(d, q)
  IN  FineQuadric(One, One, b, VLen(q), VLen(q), Sub(Mul(b, b), Sub(RawDot(q, q), Mul(R, R))), R, ex)

\* a must be a unit vector
CylinderLine(c, ax, R, p, d, ex) ==
  LET q == VPerp(VSub(c, p), ax)
      e == VPerp(d, ax)
      a == FDot(e, e)
      b == FDot(e, q)
      q2 == FDot(q, q)
      parallel == Le(VLen(e), Tol10)
      off == Sub(VLen(q), R)
  IN  IF Le(a, Tol12) THEN [NoCrossing EXCEPT !.sure = parallel, !.all = IsNegative(off),
                                              !.near = ~parallel \/ (~ex /\ Near(off, Zero, Tol6))]
      ELSE LET z == Quadric(a, b, q2, Sub(Mul(b, b), Mul(a, Sub(q2, Sq(R)))), R, ex)
           IN  IF ex \/ Lt(Tol4, a) THEN z ELSE [z EXCEPT !.sure = FALSE, !.near = TRUE]

FineCylinderLine(c, ax, R, p, d, ex) ==
  LET v == VSub(c, p)
      q == VPerp(v, ax)
      e == VPerp(d, ax)
      a == FDot(e, e)
      b == FDot(e, q)
  IN  IF Lt(VLen(e), Tol6) THEN CylinderLine(c, ax, R, p, d, ex)
      ELSE FineQuadric(VLen(e), a, b, VLen(q), VLen(v), Sub(Mul(b, b), Mul(a, Sub(FDot(q, q), Sq(R)))), R, ex)

\* outward unit normals at a surface point
SphereNormal(c, pt) == VUnit(VSub(pt, c))
CylinderNormal(c, ax, pt) == VUnit(VPerp(VSub(pt, c), ax))

PrimLine(s, p, d, ex) == IF s.shape = "sphere" THEN SphereLine(s.c, s.R, p, d, ex)
                         ELSE CylinderLine(s.c, VUnit(s.a), s.R, p, d, ex)
FinePrimLine(s, p, d, ex) == IF s.shape = "sphere" THEN FineSphereLine(s.c, s.R, p, d, ex)
                             ELSE FineCylinderLine(s.c, VUnit(s.a), s.R, p, d, ex)
PrimNormal(s, pt) == IF s.shape = "sphere" THEN SphereNormal(s.c, pt) ELSE CylinderNormal(s.c, VUnit(s.a), pt)

\* distance of a point from the primitive's surface, negative inside
PrimDepth(s, pt) == IF s.shape = "sphere" THEN Sub(VDist(pt, s.c), s.R)
                    ELSE Sub(VLen(VPerp(VSub(pt, s.c), VUnit(s.a))), s.R)

\* the first crossing of a sphere ahead of the ray (mirror balls, lens balls)
SphereMeet(c, R, p, d, ex) ==
  LET z == SphereLine(c, R, p, d, ex)
      a0 == Ahead(z.t0, ex)
      a1 == Ahead(z.t1, ex)
      t == IF a0 # "no" THEN z.t0 ELSE z.t1
      k == IF z.n = 0 THEN IF z.near THEN "may" ELSE "no"
           ELSE IF a0 = "no" /\ a1 = "no" THEN "no"
           ELSE IF ~z.sure \/ a0 = "may" THEN "may"
           ELSE IF a0 = "yes" THEN "yes" ELSE a1
  IN  IF k = "no" THEN NoHit
      ELSE [k |-> k, t |-> t, pt |-> VAt(p, d, t), n |-> SphereNormal(c, VAt(p, d, t)), tol |-> MaxR(z.tol, Tol8)]

(* ---- Boolean solids ---- *)
\* prims is a sequence of primitives; a tree node is [op |-> "leaf", i |-> index] or [op, l, r];
\* in is a sequence of truth values, one per primitive
RECURSIVE Member(_, _)
Member(tree, in) ==
  CASE tree.op = "leaf"       -> in[tree.i]
    [] tree.op = "union"      -> Member(tree.l, in) \/ Member(tree.r, in)
    [] tree.op = "intersect"  -> Member(tree.l, in) /\ Member(tree.r, in)
    [] tree.op = "difference" -> Member(tree.l, in) /\ ~Member(tree.r, in)

PointInSolid(o, pt) == Member(o.tree, [i \in 1 .. Len(o.prims) |-> IsNegative(PrimDepth(o.prims[i], pt))])
PointSure(o, pt, tol) == \A i \in 1 .. Len(o.prims) : Lt(tol, Abs(PrimDepth(o.prims[i], pt)))

\* membership along the line, at parameter s
InAt(o, lines, s) == Member(o.tree, [i \in 1 .. Len(lines) |->
                             lines[i].all \/ (lines[i].n = 2 /\ Lt(lines[i].t0, s) /\ Lt(s, lines[i].t1))])

LtOp(a, b) == Lt(a, b)
\* The boundaries of the composed solid ahead: parameters where membership changes.
SolidLines(o, p, d, ex) == [i \in 1 .. Len(o.prims) |-> PrimLine(o.prims[i], p, d, ex)]
SolidCandidates(lines) ==
  SetToSortSeq({t \in UNION {IF lines[i].n = 2 THEN {lines[i].t0, lines[i].t1} ELSE {} : i \in 1 .. Len(lines)} : Lt(Gap, t)}, LtOp)
SolidMemberships(o, lines, ts) ==       \* before the first candidate, between candidates, after the last one
  [k \in 1 .. Len(ts) + 1 |-> InAt(o, lines,
      IF Len(ts) = 0 THEN Gap
      ELSE IF k = 1 THEN Half(Add(Gap, ts[1]))
      ELSE IF k = Len(ts) + 1 THEN Add(ts[Len(ts)], One)
      ELSE Half(Add(ts[k - 1], ts[k])))]

RECURSIVE FirstChange(_, _)
FirstChange(mem, k) == IF k >= Len(mem) THEN 0 ELSE IF mem[k] # mem[k + 1] THEN k ELSE FirstChange(mem, k + 1)

RECURSIVE MostTol(_, _, _)              \* how far the crossing at t may be displaced: the worst of the surfaces met there
MostTol(lines, t, i) ==
  IF i = 0 THEN Zero
  ELSE LET m == MostTol(lines, t, i - 1) IN IF lines[i].n = 2 /\ (lines[i].t0 = t \/ lines[i].t1 = t) THEN MaxR(m, lines[i].tol) ELSE m

SolidMeetBy(lines, o, p, d, ex) ==
  LET ts == SolidCandidates(lines)
      mem == SolidMemberships(o, lines, ts)
      k == FirstChange(mem, 1)
      \* anything that could make code see the crossings up to the first change in another order
      upto == IF k = 0 THEN Len(ts) ELSE IF k < Len(ts) THEN k + 1 ELSE k
      slack(t) == MostTol(lines, t, Len(lines))
      sure == ex \/ /\ \A i \in 1 .. Len(lines) : ~lines[i].near
                    /\ \A i \in 1 .. upto : Lt(MaxR(GapSafe, slack(ts[i])), ts[i])
                    /\ \A i \in 2 .. upto : Lt(Add(Tol8, Add(slack(ts[i]), slack(ts[i - 1]))), Sub(ts[i], ts[i - 1]))
  IN  IF k = 0 THEN IF sure THEN NoHit ELSE [k |-> "may", t |-> Zero, pt |-> p, n |-> d, tol |-> Zero, start |-> mem[1], some |-> FALSE]
      ELSE LET t == ts[k]
               pt == VAt(p, d, t)
               on == {i \in 1 .. Len(lines) : lines[i].n = 2 /\ (lines[i].t0 = t \/ lines[i].t1 = t)}
               j == CHOOSE i \in on : TRUE
           IN  [k |-> IF sure THEN "yes" ELSE "may", t |-> t, pt |-> pt, n |-> PrimNormal(o.prims[j], pt),
                tol |-> lines[j].tol, start |-> mem[1], some |-> TRUE, on |-> on]
SolidMeet(o, p, d, ex) == SolidMeetBy(SolidLines(o, p, d, ex), o, p, d, ex)
\* start and direction as exact as doubles can be
FineSolidMeet(o, p, d, ex) == SolidMeetBy([i \in 1 .. Len(o.prims) |-> FinePrimLine(o.prims[i], p, d, ex)], o, p, d, ex)
=============================================================================
