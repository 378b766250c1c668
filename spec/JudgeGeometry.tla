---------------------------- MODULE JudgeGeometry ---------------------------
(* Judges single calls that intersect a ray with a shape or ask where a     *)
(* point is (properties C05 to C08).                                        *)
(*                                                                          *)
(* "meet":   ev.sh the shape, ev.p, ev.d the ray, ev.ex, and the answer:    *)
(*           ev.hit, ev.pts, ev.ns (points and normals), ev.count           *)
(* "member": ev.sh, ev.pt, ev.obs (TRUE: inside)                            *)
(* "index":  ev.list (indices of optics), ev.pt, ev.obs (the index)         *)
EXTENDS Optics

Flag(cond, clause) == IF cond THEN {clause} ELSE {}
UnitTo(n, m, tol) == VNear(n, m, tol)
ParallelTo(n, m) == Near(VLen(n), One, Tol9) /\ Near(Abs(FDot(n, m)), One, Tol9)
PtTol(pt, tol) == Add(MaxR(tol, Tol8), FMul(Tol10, VMaxAbs(pt)))

FlatShapeMeet(sh, p, d, ex) ==
  CASE sh.k = "plane" -> PlaneMeet(sh.c, VUnit(sh.n), p, d, ex)
    [] sh.k = "disc"  -> DiscMeet(sh.c, VUnit(sh.n), sh.R, p, d, ex)
    [] sh.k = "rect"  -> RectMeet(sh.c, VUnit(sh.n), VUnit(sh.tan), sh.h, sh.w, p, d, ex)

JudgeFlat(ev) ==
  LET m == FlatShapeMeet(ev.sh, ev.p, VUnit(ev.d), ev.ex) IN
  CASE m.k = "no"  -> Flag(ev.hit, "C05:hit reported where the ray does not cross the surface")
    [] m.k = "yes" -> IF ~ev.hit \/ Len(ev.pts) # 1 THEN {"C05:crossing of the surface not reported"}
                      ELSE Flag(~VNear(ev.pts[1], m.pt, PtTol(m.pt, m.tol)), "C05:wrong crossing point")
                           \cup Flag(~VNear(ev.ns[1], m.n, Tol9), "C05:wrong normal")
    [] OTHER -> {}

JudgePrim(ev) ==
  LET d == VUnit(ev.d)
      s == ev.sh
      z == FinePrimLine(s, ev.p, d, ev.ex)
      a0 == IF z.n = 0 THEN "no" ELSE Ahead(z.t0, ev.ex)
      a1 == IF z.n # 2 THEN "no" ELSE Ahead(z.t1, ev.ex)
      off(t) == ev.ex \/ Lt(z.tol, Abs(t))            \* surely ahead or surely behind
      sure == z.sure /\ a0 # "may" /\ a1 # "may" /\ (z.n = 0 \/ off(z.t0)) /\ (z.n # 2 \/ off(z.t1))
      ts == (IF a0 = "yes" THEN {z.t0} ELSE {}) \cup (IF a1 = "yes" THEN {z.t1} ELSE {})
      found(t) == \E k \in 1 .. Len(ev.pts) :
                     /\ VNear(ev.pts[k], VAt(ev.p, d, t), PtTol(VAt(ev.p, d, t), z.tol))
                     /\ VNear(ev.ns[k], VNeg(PrimNormal(s, ev.pts[k])), Tol7)
      placed(t) == \E k \in 1 .. Len(ev.pts) : VNear(ev.pts[k], VAt(ev.p, d, t), PtTol(VAt(ev.p, d, t), z.tol))
  IN  IF ~sure THEN {}
      ELSE IF ts = {} THEN Flag(ev.hit, "C06:hit reported where the ray does not cross the surface")
                           \cup Flag(~ev.hit /\ ev.count % 2 # 0, "C06:odd number of crossings reported from outside")
      ELSE IF ~ev.hit THEN {"C06:crossing not reported"}
      ELSE Flag(Len(ev.pts) # Cardinality(ts), "C06:wrong number of crossing points")
           \cup Flag(\E t \in ts : ~placed(t), "C06:wrong crossing point")
           \cup Flag((\A t \in ts : placed(t)) /\ (\E t \in ts : ~found(t)), "C06:wrong normal")
           \cup Flag((ev.count % 2 # 0) # (z.n = 2 /\ Cardinality(ts) = 1), "C06:wrong parity of the number of crossings")

SolidPtSure(o, pt, ex) == ex \/ PointSure(o, pt, Tol8)

JudgeSolid(ev) ==
  LET d == VUnit(ev.d)
      m == FineSolidMeet(ev.sh, ev.p, d, ev.ex)
  IN  CASE m.k = "no"  -> Flag(ev.hit, "C08:hit reported where membership does not change")
        [] m.k = "yes" ->
             IF ~ev.hit THEN {"C08:boundary of the solid not reported"}
             ELSE IF ~VNear(ev.pts[1], m.pt, PtTol(m.pt, m.tol)) THEN {"C08:boundary reported at the wrong place"}
             ELSE Flag(\A i \in m.on : ~ParallelTo(ev.ns[1], PrimNormal(ev.sh.prims[i], m.pt)), "C08:wrong normal")
                  \cup Flag(SolidPtSure(ev.sh, ev.p, ev.ex) /\ (ev.count % 2 # 0) # m.start, "C08:wrong inside verdict")
        [] OTHER -> {}

JudgeMeet(ev) ==
  IF ~ev.fin THEN {IF ev.sh.k = "prim" THEN "C06:not finite" ELSE IF ev.sh.k = "solid" THEN "C08:not finite" ELSE "C05:not finite"}
  ELSE CASE ev.sh.k = "prim"  -> JudgePrim(ev)
         [] ev.sh.k = "solid" -> JudgeSolid(ev)
         [] OTHER             -> JudgeFlat(ev)

(* ---- many rays, one interaction each: the rows every detector holds afterwards ---- *)
\* ev.rays the rays in their order, ev.D their budget, ev.hits the rows of each optic
JudgeSalvo(ev, E) ==
  LET end == TLCEval([k \in 1 .. Len(ev.rays) |-> Flight(E.optics, ev.rays[k].p, VUnit(ev.rays[k].d), ev.D, E.ex)])
      row(k) == LET pt == end[k].m.pt IN << pt[1], pt[2], pt[3], ev.rays[k].wl >>
      at(id, k) == E.optics[id].act = "detector" /\ end[k].hit = id /\ ev.rays[k].type # "faerie_fire"
      want(id) == LET ks == SelectSeq([k \in 1 .. Len(ev.rays) |-> k], LAMBDA k : at(id, k)) IN [j \in 1 .. Len(ks) |-> row(ks[j])]
      wrong(id) == LET w == TLCEval(want(id))
                       got == ev.hits[id]
                   IN  Len(got) # Len(w) \/ \E j \in 1 .. Len(w) :
                          Len(got[j]) # 4 \/ ~VNear(SubSeq(got[j], 1, 3), SubSeq(w[j], 1, 3), Tol8) \/ got[j][4] # w[j][4]
  IN  IF \E k \in 1 .. Len(ev.rays) : ~end[k].sure THEN {}
      ELSE Flag(\E id \in 1 .. Len(E.optics) : wrong(id), "C14:wrong detector record")

(* ---- the ray told to reflect or refract, without a run ---- *)
\* ev.how: "mirror" (ev.n the normal as given), "snell" (also ev.eta1, ev.eta2), "optic" (ev.k the optic, ev.pt the point)
JudgeTurn(ev, E) ==
  LET d == VUnit(ev.d)
      o == E.optics[ev.k]
      prop == IF ev.how = "mirror" THEN "C09" ELSE IF ev.how = "snell" THEN "C11" ELSE IF o.act = "grating" THEN "C13" ELSE "C12"
      outs == CASE ev.how = "mirror" -> {Turned(Mirrored(d, VUnit(ev.n)))}
                [] ev.how = "snell"  -> RefractOutcomes(d, VUnit(ev.n), FDiv(ev.eta1, ev.eta2))
                [] OTHER             -> Interact(o, NoHit, [type |-> "normal", order |-> ev.order, wl |-> ev.wl], d, ev.pt)
      tol == IF ev.how = "snell" /\ Cardinality(outs) > 1 THEN Tol6 ELSE IF prop = "C12" THEN Tol7 ELSE Tol9
  IN  IF ~ev.fin THEN {prop \o ":not finite after a direct call"}
      ELSE Flag(~ev.still, prop \o ":a direct call moved the ray")
           \cup Flag(~\E x \in outs : x.absorbed = ev.blocked /\ (x.absorbed \/ VNear(x.dir, ev.out, tol)),
                     prop \o ":wrong direction after a direct call")

(* ---- membership ---- *)
JudgeMember(ev) ==
  IF ~SolidPtSure(ev.sh, ev.pt, ev.ex) THEN {}
  ELSE Flag(PointInSolid(ev.sh, ev.pt) # ev.obs, "C07:wrong membership of a point")

\* the body of an optic that has one: a solid, or a ball lens
HasBody(o) == o.k = "solid" \/ (o.k = "sphere" /\ o.act = "refract")
Body(o) == IF o.k = "solid" THEN o ELSE [prims |-> << [shape |-> "sphere", c |-> o.c, R |-> o.R] >>, tree |-> [op |-> "leaf", i |-> 1]]

RECURSIVE IndexAt(_, _, _)
IndexAt(optics, pt, k) ==
  IF k > Len(optics) THEN One
  ELSE IF HasBody(optics[k]) /\ PointInSolid(Body(optics[k]), pt) THEN optics[k].index
  ELSE IndexAt(optics, pt, k + 1)
JudgeIndex(ev, E) ==
  LET optics == [k \in 1 .. Len(ev.list) |-> E.optics[ev.list[k]]] IN
  IF \E k \in 1 .. Len(optics) : HasBody(optics[k]) /\ ~SolidPtSure(Body(optics[k]), ev.pt, ev.ex) THEN {}
  ELSE Flag(ev.obs # IndexAt(optics, ev.pt, 1), "C07:wrong refractive index at a point")
=============================================================================
