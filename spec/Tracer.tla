------------------------------- MODULE Tracer -------------------------------
(* The ray tracer as a state machine.                                       *)
(*                                                                          *)
(* A ray: [pos, dir, blocked, path, wl, order, type]; path is the recorded  *)
(* trajectory (a sequence of points).  A run: [rem, cap, cnt]; rem is the   *)
(* distance still to travel, cap the number of interactions allowed (-1:    *)
(* unlimited), cnt the number of interactions so far.                       *)
EXTENDS Optics

LaunchRay(p, d, wl, order, type) ==
  [pos |-> p, dir |-> VUnit(d), blocked |-> FALSE, path |-> << p >>, wl |-> wl, order |-> order, type |-> type]

BeginRun(D, cap) == [rem |-> D, cap |-> cap, cnt |-> 0]

Finished(ray, run) == ~IsPos(run.rem) \/ (run.cap >= 0 /\ run.cnt >= run.cap) \/ ray.blocked

MoveTo(ray, pt) == [ray EXCEPT !.pos = pt, !.path = Append(@, pt)]

\* free flight to the end of the budget
FreeRay(ray, run) == MoveTo(ray, VAt(ray.pos, ray.dir, run.rem))
FreeRun(run) == [run EXCEPT !.rem = Zero]

\* flight to the meeting m and interaction with outcome out
HitRay(ray, m, out) == [MoveTo(ray, m.pt) EXCEPT !.dir = out.dir, !.blocked = out.absorbed]
HitRun(run, m) == [run EXCEPT !.rem = Sub(@, m.t), !.cnt = @ + 1]

\* a single flight outside a run
FlyRay(ray, dist) == MoveTo(ray, VAt(ray.pos, ray.dir, dist))

\* does an interaction of this ray with this optic add a row to the optic's record?
Records(o, ray) == o.act = "detector" /\ ray.type # "faerie_fire"

(* All possible next states <<ray, run, optic hit or 0>> of an unfinished run *)
Steps(optics, ray, run, ex) ==
  LET F == Flight(optics, ray.pos, ray.dir, run.rem, ex) IN
  IF F.hit = 0 THEN {<< FreeRay(ray, run), FreeRun(run), 0 >>}
  ELSE {<< HitRay(ray, F.m, out), HitRun(run, F.m), F.hit >> :
           out \in Interact(optics[F.hit], F.m, ray, ray.dir, F.m.pt)}
=============================================================================
