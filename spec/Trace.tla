-------------------------------- MODULE Trace -------------------------------
(* Validates recorded executions of the ray tracer against Tracer.          *)
(*                                                                          *)
(* The file named by the environment variable TRACE holds one episode per   *)
(* line: a world (optics) and a sequence of recorded events.  Every episode *)
(* is one initial state; every launch, straight leg with the interaction at *)
(* its end, and return of a run is one step.  A step never blocks: when the *)
(* record is not a behaviour Tracer allows, a line FAIL names the violated  *)
(* clauses (prefixed by the property they belong to) and validation goes on *)
(* from the recorded state.  A line DONE ends every episode, so that a lost *)
(* episode is noticed.                                                      *)
EXTENDS Tracer, Judge, Json, IOUtils, TLC

Episodes == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ep,      \* the number of the episode
          s        \* the state of the validation, a record:
                   \*   i     next event
                   \*   j     legs of the current run event consumed, -1 before it begins
                   \*   rays  state of each ray
                   \*   run   the current run
                   \*   hits  rows recorded so far by each optic
                   \*   known the ray's direction was observed (not computed by Tracer)
                   \*   via   index of the optic that gave the ray its direction, 0: the launch
                   \*   free  the last leg was a free flight
                     \*   inc   number of steps with more than one allowed outcome
                   \*   bad   number of steps with deviations
           \*   n     number of judged steps
vars == << ep, s >>

E == Episodes[ep]
Ev == E.ev[s.i]
Ex == E.ex
IdleRun == [rem |-> Zero, cap |-> 0, cnt |-> 0]

TolD == Tol7
PosTol(p, tol) == Add(MaxR(tol, Tol7), FMul(Tol10, MaxR(One, VMaxAbs(p))))
IsUnit(d) == Near(VLen(d), One, Tol9)

(* ---- which property a deviation belongs to ---- *)
WhereClauses(o) ==
  CASE o.k = "disc" \/ o.k = "rect" -> {"C05:flat optic met at the wrong place"}
    [] o.k = "concave"  -> {"C10:concave mirror met at the wrong place"}
    [] o.k = "sphere"   -> {"C06:sphere met at the wrong place"} \cup (IF o.act = "mirror" THEN {"C10:convex mirror met at the wrong place"} ELSE {})
    [] o.k = "solid"    -> {"C08:solid met at the wrong place"}
    [] OTHER            -> {}
TurnClauses(o, ray) ==
  IF ray.type = "faerie_fire" THEN {"C04:profiling ray turned"}
  ELSE CASE o.act = "mirror"    -> {"C09:wrong reflection"} \cup (IF o.k \in {"concave", "sphere"} THEN {"C10:wrong reflection at curved mirror"} ELSE {})
         [] o.act = "dmd"       -> {"C09:wrong reflection at micromirrors"}
         [] o.act = "ideal"     -> {"C12:wrong direction after ideal lens"}
         [] o.act = "collimate" -> {"C12:wrong direction after collimator"}
         [] o.act = "focus"     -> {"C12:wrong direction after focuser"}
         [] o.act = "grating"   -> {"C13:wrong diffraction"}
         [] o.act = "refract"   -> {"C11:wrong refraction", "C09:wrong total reflection"}
         [] OTHER               -> {"C04:absorbed ray turned"}
AbsorbClauses(o) == IF o.act = "grating" THEN {"C13:wrong decision whether the order propagates"}
                    ELSE {"C04:wrong absorption"}

Add2(fs, cond, clause) == IF cond THEN fs \cup {clause} ELSE fs
Step(ns, fs) == [s |-> [ns EXCEPT !.n = @ + 1, !.bad = IF fs = {} THEN @ ELSE @ + 1], f |-> fs]

(* ---- launch ---- *)
DoLaunch ==
  LET d == VUnit(Ev.d)
      ray == [LaunchRay(Ev.p, Ev.d, Ev.wl, Ev.order, Ev.type) EXCEPT !.dir = IF Ev.fin THEN Ev.obs.dir ELSE d]
      f1 == Add2({}, ~Ev.fin, "C16:not finite after launch")
      f2 == IF ~Ev.fin THEN {} ELSE
            Add2({}, ~IsUnit(Ev.obs.dir), "C16:not a unit direction after launch")
            \cup Add2({}, ~VNear(Ev.obs.dir, d, Tol9), "C16:direction not along the launch direction")
            \cup Add2({}, Ev.obs.hist # << Ev.p >>, "C01:trajectory does not start at the launch point")
            \cup Add2({}, Ev.obs.pos # Ev.p, "C01:position is not the launch point")
            \cup Add2({}, Ev.obs.blocked, "C04:absorbed at launch")
  IN  Step([s EXCEPT !.i = @ + 1, !.rays = Append(@, [ray EXCEPT !.path = << Ev.p >>] @@ [via |-> 0, first |-> d, judged |-> TRUE]),
                     !.lost = ~Ev.fin], f1 \cup f2)

\* Whatever a run did, go on from the state it ended in: the next event is judged from there.
Resync == [s EXCEPT !.i = @ + 1, !.j = -1, !.run = IdleRun, !.hits = IF Ev.e = "run" THEN Ev.hits ELSE @,
                    !.rays[Ev.r] = [@ EXCEPT !.pos = Ev.pos, !.dir = Ev.dir, !.blocked = Ev.blocked, !.path = Ev.hist]]

(* ---- a run: begin, legs, return ---- *)
Optics_ == [k \in 1 .. Len(Ev.list) |-> E.optics[Ev.list[k]]]
Ray == s.rays[Ev.r]
Put(ray) == [s.rays EXCEPT ![Ev.r] = ray]
Rows == Len(Ev.hist)
PrefixKept == Rows >= Len(Ray.path) /\ \A k \in 1 .. Len(Ray.path) : Ev.hist[k] = Ray.path[k]

DoBegin ==
  IF ~Ev.fin
  THEN Step([s EXCEPT !.i = @ + 1, !.lost = TRUE], {"C16:not finite"} \cup {E.own \o ":not finite"})
  ELSE IF ~PrefixKept
  THEN Step(Resync, {"C01:recorded trajectory rewritten"})
  ELSE Step([s EXCEPT !.j = 0, !.run = BeginRun(Ev.D, Ev.cap), !.known = TRUE, !.free = FALSE], {})

\* the budget is used up up to rounding
Spent == ~Ex /\ Near(s.run.rem, Zero, Tol6)

DoLeg ==
  LET ray == Ray
      q == Ev.hist[Len(ray.path) + 1]
      len == VDist(q, ray.pos)
      tolq == PosTol(q, Zero)
      last == Len(ray.path) + 1 = Rows
      straight == VNear(q, VAt(ray.pos, ray.dir, len), tolq)
      F == Flight(Optics_, ray.pos, ray.dir, s.run.rem, Ex)
      freePt == VAt(ray.pos, ray.dir, s.run.rem)
      atFree == VNear(q, freePt, tolq)
      moved == MoveTo(ray, q)
      \* the optics at whose meeting point the leg may end
      at == {k \in F.rivals \cup (IF F.hit = 0 THEN {} ELSE {F.hit}) : VNear(q, F.ms[k].pt, PosTol(q, F.ms[k].tol))}
      over == CASE Ray.blocked -> {"C04:absorbed ray moved"}
                [] s.run.cap >= 0 /\ s.run.cnt >= s.run.cap -> {"C04:moved on after the last allowed interaction"}
                [] OTHER -> {"C02:travelled beyond the budget"}
      giveUp(fs) == Step(Resync, fs)
      wrongEnd ==
        {"C03:leg does not end at the nearest surface"}
        \cup Add2({}, Lt(Add(s.run.rem, tolq), len), "C02:travelled beyond the budget")
        \* the end of the run: not absorbed, not at the last interaction, with distance left
        \cup Add2({}, last /\ ~Ev.blocked /\ (s.run.cap < 0 \/ s.run.cnt + 1 < s.run.cap) /\ Lt(Add(len, tolq), s.run.rem),
                  "C02:stopped before the budget was used up")
        \cup (IF F.hit # 0 /\ ~Lt(len, Sub(F.m.t, tolq)) THEN WhereClauses(Optics_[F.hit])
              ELSE UNION {WhereClauses(Optics_[k]) : k \in 1 .. Len(Optics_)})
  IN
  IF Finished(ray, s.run) /\ ~Spent THEN giveUp(over)
  ELSE IF len = Zero THEN giveUp({"C01:leg without length"})
  ELSE IF ~straight
  THEN giveUp(IF s.known THEN {"C01:leg does not follow the ray's direction"}
              ELSE IF Ray.via = 0 THEN {"C01:leg does not follow the launch direction"}
              ELSE TurnClauses(E.optics[Ray.via], ray))
  ELSE IF ~F.sure \/ (Finished(ray, s.run) /\ Spent)
  THEN IF at = {} /\ atFree
       THEN Step([s EXCEPT !.rays = Put(moved), !.run = FreeRun(s.run), !.free = TRUE, !.inc = @ + 1, !.j = @ + 1], {})
       ELSE Step([Resync EXCEPT !.inc = @ + 1], {})
  ELSE IF F.hit = 0
  THEN IF atFree THEN Step([s EXCEPT !.rays = Put(moved), !.run = FreeRun(s.run), !.free = TRUE, !.j = @ + 1], {})
       ELSE giveUp(wrongEnd)
  ELSE IF at = {} THEN giveUp(wrongEnd)
  ELSE
  LET o == Optics_[F.hit]
      id == Ev.list[F.hit]
      outs == Interact(o, F.m, ray, ray.dir, q)
      nrun == HitRun(s.run, IF Ex THEN F.m ELSE [F.m EXCEPT !.t = len])
      rows == IF Records(o, ray) THEN [s.hits EXCEPT ![id] = Append(@, << q[1], q[2], q[3], ray.wl >>)] ELSE s.hits
      nxt == VSub(Ev.hist[Len(ray.path) + 2], q)
      nlen == VLen(nxt)
      \* at the limit of total reflection rounding is magnified
      limit == o.act = "refract" /\ Cardinality(outs) > 1
      along(d) == VNear(VScale(nlen, d), nxt, IF limit THEN MaxR(tolq, FMul(Tol6, nlen)) ELSE tolq)
      Fits(out) == IF last THEN out.absorbed = Ev.blocked /\ VNear(out.dir, Ev.dir, IF limit THEN Tol6 ELSE TolD)
                   ELSE ~out.absorbed /\ along(out.dir)
      fit == {out \in outs : Fits(out)}
      \* has another optic that is met here acted instead?
      Instead(k) == /\ F.ms[k].k # "no" /\ Ev.list[k] # id /\ VNear(q, F.ms[k].pt, PosTol(q, F.ms[k].tol))
                    /\ \E out \in Interact(Optics_[k], F.ms[k], ray, ray.dir, q) : Fits(out)
      other == fit = {} /\ \E k \in 1 .. Len(Optics_) : Instead(k)
      out == IF fit # {} THEN CHOOSE x \in fit : TRUE ELSE CHOOSE x \in outs : TRUE
      fs == Add2({}, other, "C03:another optic than the nearest (or, at a tie, the first listed) acts") \cup
            IF ~last \/ fit # {} THEN {}
            ELSE IF \E x \in outs : x.absorbed = Ev.blocked THEN TurnClauses(o, ray)
            ELSE IF ray.type = "faerie_fire" THEN {"C04:profiling ray not stopped"}
            ELSE AbsorbClauses(o)
      \* go on with the recorded direction, so that rounding errors do not add up along the path
      ndir == IF ~last /\ fit # {} /\ ~Ex /\ Lt(Tol2, nlen) THEN VUnit(nxt) ELSE out.dir
      nray == [MoveTo(ray, q) EXCEPT !.dir = ndir, !.blocked = out.absorbed, !.via = id]
  IN  Step([s EXCEPT !.rays = Put(nray), !.run = nrun, !.hits = rows, !.known = FALSE, !.free = FALSE, !.j = @ + 1,
                     !.inc = IF Cardinality(outs) > 1 THEN @ + 1 ELSE @], fs)

\* rows of the detectors: the old ones unchanged, exactly the new ones appended
HitsKept(id) == /\ Len(Ev.hits[id]) = Len(s.hits[id])
                /\ \A k \in 1 .. Len(s.hits[id]) :
                      LET a == Ev.hits[id][k]  b == s.hits[id][k] IN
                      Len(a) = 4 /\ VNear(SubSeq(a, 1, 3), SubSeq(b, 1, 3), PosTol(SubSeq(b, 1, 3), Zero)) /\ a[4] = b[4]

DoReturn ==
  LET ray == Ray
      f ==
        Add2({}, ~Finished(ray, s.run) /\ ~Spent, "C02:stopped before the budget was used up")
        \cup Add2({}, ~Finished(ray, s.run) /\ ~Spent /\ s.run.cap > 0 /\ Lt(Int2R(1000000000), s.run.rem),
                  "C04:stopped before the last allowed interaction, without a limit to the distance")
        \cup Add2({}, Ev.pos # ray.pos, "C01:position is not the end of the trajectory")
        \cup Add2({}, ~IsUnit(Ev.dir), "C16:not a unit direction")
        \cup Add2({}, s.j = 0 /\ Ev.dir # ray.dir, "C01:direction changed without interaction")
        \cup Add2({}, s.free /\ ~VNear(Ev.dir, ray.dir, TolD) /\ s.known, "C01:direction changed in free flight")
        \cup (IF s.free /\ ~VNear(Ev.dir, ray.dir, TolD) /\ ~s.known THEN TurnClauses(E.optics[ray.via], ray) ELSE {})
        \cup Add2({}, (s.j = 0 \/ s.free) /\ Ev.blocked # ray.blocked,
                  IF ray.blocked THEN "C04:absorption forgotten" ELSE "C04:absorbed without absorber")
        \cup Add2({}, \E id \in 1 .. Len(s.hits) : ~HitsKept(id), "C14:wrong detector record")
        \cup Add2({}, s.j > 0 /\ \E a, b \in 1 .. Len(s.hits) : /\ a # b /\ b = ray.via /\ \E k \in 1 .. Len(Ev.list) : Ev.list[k] = a
                         /\ Len(Ev.hits[a]) = Len(s.hits[a]) + 1 /\ Len(Ev.hits[b]) = Len(s.hits[b]) - 1,
                  "C03:another optic than the nearest (or, at a tie, the first listed) acts")
  IN  Step([s EXCEPT !.i = @ + 1, !.j = -1, !.rays = Put([ray EXCEPT !.dir = Ev.dir, !.blocked = Ev.blocked]),
                     !.hits = Ev.hits, !.run = IdleRun], f)

(* ---- a single flight ---- *)
DoFly ==
  IF ~Ev.fin THEN Step([s EXCEPT !.i = @ + 1, !.lost = TRUE], {"C16:not finite"})
  ELSE LET ray == Ray
           q == VAt(ray.pos, ray.dir, Ev.dist)
           f == IF ~PrefixKept \/ Rows # Len(ray.path) + 1 THEN {"C01:single flight does not add exactly one point"}
                ELSE Add2({}, ~VNear(Ev.hist[Rows], q, PosTol(q, Zero)), "C01:single flight ends at the wrong place")
                     \cup Add2({}, Ev.pos # Ev.hist[Rows], "C01:position is not the end of the trajectory")
                     \cup Add2({}, Ev.dir # ray.dir, "C01:single flight changed the direction")
                     \cup Add2({}, Ev.blocked # ray.blocked, "C04:single flight changed absorption")
       IN  Step(Resync, f)

(* ---- relations between rays of an episode; only judged while every step was certain ---- *)
Same(a, b, tol) == VNear(a.pos, b.pos, tol) /\ VNear(a.dir, b.dir, tol) /\ a.blocked = b.blocked
SamePath(a, b, tol) == Len(a.path) = Len(b.path) /\ \A k \in 1 .. Len(a.path) : VNear(a.path[k], b.path[k], tol)
Reversed(a, b, tol) == /\ Len(a.path) = Len(b.path)
                       /\ \A k \in 1 .. Len(a.path) : VNear(a.path[k], b.path[Len(a.path) + 1 - k], tol)
                       /\ VNear(b.dir, VNeg(a.first), tol)
\* A concave mirror acts where the disc at its vertex is crossed but on its sphere, so a ray that is turned near its
\* rim, or started again between the two, may really go another way: that is left to the judgement of every single leg.
\* An ideal lens much wider than its focal length turns rays into its own plane, from where they come back with any error.
Delicate == \E k \in 1 .. Len(E.optics) : LET o == E.optics[k] IN
              o.k = "concave" \/ (o.act = "ideal" /\ Lt(Abs(o.f), FMul(o.R, Rat(1, 20))))
DoRelate ==
  LET a == s.rays[Ev.a]
      b == s.rays[Ev.b]
      ok == CASE Ev.rel = "end" -> Same(a, b, Ev.tol)
              [] Ev.rel = "path" -> Same(a, b, Ev.tol) /\ SamePath(a, b, Ev.tol)
              [] Ev.rel = "reverse" -> Reversed(a, b, Ev.tol)
  IN  Step([s EXCEPT !.i = @ + 1], IF s.inc > 0 \/ ok \/ (Ev.rel # "path" /\ Delicate /\ s.bad = 0) THEN {} ELSE {Ev.clause})

(* ---- everything else is judged by itself ---- *)
DoJudge == Step([s EXCEPT !.i = @ + 1], JudgeEvent(Ev, E))
DoRaised == Step([s EXCEPT !.i = @ + 1, !.lost = TRUE], {E.own \o ":" \o Ev.what})
Skip == [s |-> [s EXCEPT !.i = @ + 1], f |-> {}]

Apply(r) == /\ s' = r.s
            /\ ep' = ep
            /\ IF r.f = {} THEN TRUE ELSE PrintT(ToJson([fail |-> E.id, i |-> s.i, j |-> s.j, clauses |-> SetToSeq(r.f)]))

Rayed(e) == e \in {"launch", "run", "fly", "relate"}
More == s.i <= Len(E.ev)
Launch == More /\ ~s.lost /\ Ev.e = "launch" /\ Apply(DoLaunch)
Begin  == More /\ ~s.lost /\ Ev.e = "run" /\ s.j = -1 /\ Apply(DoBegin)
Leg    == More /\ ~s.lost /\ Ev.e = "run" /\ s.j >= 0 /\ Len(Ray.path) < Rows /\ Apply(DoLeg)
Return == More /\ ~s.lost /\ Ev.e = "run" /\ s.j >= 0 /\ Len(Ray.path) = Rows /\ Apply(DoReturn)
Fly    == More /\ ~s.lost /\ Ev.e = "fly" /\ Apply(DoFly)
Relate == More /\ ~s.lost /\ Ev.e = "relate" /\ Apply(DoRelate)
Raised == More /\ Ev.e = "raised" /\ Apply(DoRaised)
Judged == More /\ Ev.e # "raised" /\ ~Rayed(Ev.e) /\ Apply(DoJudge)
Skipped == More /\ s.lost /\ Rayed(Ev.e) /\ Apply(Skip)
Done   == /\ s.i = Len(E.ev) + 1
          /\ s' = [s EXCEPT !.i = @ + 1]
          /\ ep' = ep
          /\ PrintT(ToJson([done |-> E.id, n |-> s.n, inc |-> s.inc, lost |-> s.lost]))

Init == /\ ep \in 1 .. Len(Episodes)
        /\ s = [i |-> 1, j |-> -1, rays |-> << >>, run |-> IdleRun, hits |-> [k \in 1 .. Len(Episodes[ep].optics) |-> << >>],
                known |-> TRUE, free |-> FALSE, lost |-> FALSE, inc |-> 0, bad |-> 0, n |-> 0]
Next == Launch \/ Begin \/ Leg \/ Return \/ Fly \/ Relate \/ Raised \/ Judged \/ Skipped \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
