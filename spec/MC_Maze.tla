-------------------------------- MODULE MC_Maze -------------------------------
(* All behaviours of the tracer in small worlds of Maze.                    *)
(*                                                                          *)
(* A script says which rays are launched and which runs they make.  The     *)
(* world is built while the rays travel: before each leg one optic of the   *)
(* catalogue may be put in (or beside) its way, first or last in the list   *)
(* of optics, unless that would contradict a leg already travelled.  So     *)
(* every world whose optics matter to some ray is reached, up to MaxOptics. *)
(*                                                                          *)
(* Checked: the properties of the tracer as invariants, that every          *)
(* behaviour is one of Tracer too (Refines), and, by replaying the printed  *)
(* behaviours, that the code does the same.                                 *)
EXTENDS Maze, Tracer, Json, IOUtils, TLC

\* What to explore: read from the file named by the environment variable MODEL, or everything.
Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [max |-> 2, reach |-> << 4 >>, front |-> << FALSE >>,
              scripts |-> << "split", "short", "caps", "twice", "there", "profile", "order", "cross",
                        "flight", "open", "orders" >>,
              kinds |-> << "mirror", "mirror_back", "tilt_disc", "tilt_rect", "dmd", "concave", "concave_back", "convex", "ball",
                           "blockball", "ideal", "ideal_back", "collimate", "focus", "grating", "detector", "detector_edge",
                           "detector_corner", "block", "beside", "rim", "edge_on", "annotation", "window", "union", "lens",
                           "meniscus", "shell", "nothing", "pipe", "bore", "rod" >>]
MaxOptics == Conf.max                       \* optics in a world
Scripts == ToSet(Conf.scripts)
Kinds == ToSet(Conf.kinds)
Reach4 == ToSet(Conf.reach)                 \* how far ahead an optic is put
Back == ToSet(Conf.front)                   \* put first in the list of optics?

VARIABLES world,   \* sequence of optics, in list order
          rays, run, hits,
          script,  \* the operations of this behaviour
          at,      \* the next operation
          cur,     \* the ray in a run
          chosen,  \* whether to place an optic before this leg has been decided
          log,     \* what the operations left behind
          legs,    \* legs travelled by any ray: <<start, direction, length>>
          over     \* finished
vars == << world, rays, run, hits, script, at, cur, chosen, log, legs, over >>

(* ---------------------------- the catalogue ------------------------- *)
E0(d) == IF d[1] # 0 THEN << 0, 1, 0 >> ELSE << 1, 0, 0 >>
E1(d) == IF d[3] # 0 THEN << 0, 1, 0 >> ELSE << 0, 0, 1 >>
Sph(c, R) == [shape |-> "sphere", c |-> c, R |-> R]
Cyl(c, a, R) == [shape |-> "cyl", c |-> c, a |-> a, R |-> R]
Leaf(i) == [op |-> "leaf", i |-> i]
Two_(op) == [op |-> op, l |-> Leaf(1), r |-> Leaf(2)]
Rect(act, c, n, tan) == [k |-> "rect", act |-> act, c |-> c, n |-> n, tan |-> tan, h |-> 2, w |-> 4, G |-> 5000, dmd |-> n]
Disc(act, c, n, R) == [k |-> "disc", act |-> act, c |-> c, n |-> n, R |-> R, f |-> 3]
Solid(act, prims, tree) == [k |-> "solid", act |-> act, prims |-> prims, tree |-> tree, c |-> prims[1].c]
NumOf(name) == CASE name \in {"tilt_disc", "tilt_rect", "dmd"} -> Across(<< 0, 0, 1 >>) \cup Axes
                 [] OTHER -> {<< 0, 0, 0 >>}

\* the optic called name, put at q in the way of a ray with direction d; e is a direction across d
Optic(name, q, d, e) ==
  LET m == ZNeg(d)  x == E0(d)  y == E1(d) IN
  CASE name = "mirror"      -> Rect("mirror", q, m, x)
    [] name = "mirror_back" -> Disc("mirror", q, ZScale(2, d), 1)
    [] name = "tilt_disc"   -> Disc("mirror", q, ZSub(e, d), 2)
    [] name = "tilt_rect"   -> Rect("mirror", q, ZSub(d, e), CHOOSE a \in Axis : ZDot(a, d) = 0 /\ ZDot(a, e) = 0)
    [] name = "dmd"         -> [Rect("dmd", q, m, y) EXCEPT !.dmd = ZSub(e, d)]
    [] name = "concave"     -> [k |-> "concave", act |-> "mirror", c |-> q, n |-> m, R |-> 1, f |-> 2]
    [] name = "concave_back" -> [k |-> "concave", act |-> "mirror", c |-> q, n |-> d, R |-> 1, f |-> 2]
    [] name = "convex"      -> [k |-> "sphere", act |-> "mirror", c |-> q, R |-> 1]
    [] name = "ball"        -> [k |-> "sphere", act |-> "refract", c |-> q, R |-> 1]
    [] name = "blockball"   -> [k |-> "sphere", act |-> "block", c |-> q, R |-> 2]
    [] name = "ideal"       -> Disc("ideal", q, m, 1)
    [] name = "ideal_back"  -> Disc("ideal", q, d, 1)
    [] name = "collimate"   -> Disc("collimate", ZAdd(q, x), m, 2)
    [] name = "focus"       -> Disc("focus", q, d, 1)
    [] name = "grating"     -> Rect("grating", q, m, y)
    [] name = "detector"    -> Rect("detector", q, m, x)
    [] name = "detector_edge" -> Rect("detector", ZAdd(q, x), d, x)                 \* met on its edge
    [] name = "detector_corner" -> Rect("detector", ZAdd(q, ZAdd(ZScale(2, x), y)), m, y)
    [] name = "block"       -> Rect("block", q, d, y)
    [] name = "beside"      -> Rect("block", ZAdd(q, ZScale(2, x)), m, x)           \* missed by one
    [] name = "rim"         -> Disc("mirror", ZAdd(q, y), m, 1)                     \* the rim does not belong to a disc
    [] name = "edge_on"     -> Disc("block", q, x, 1)                               \* seen from the side
    [] name = "annotation"  -> [k |-> "ignored", act |-> "annotation", c |-> q, n |-> m]
    [] name = "window"      -> [k |-> "ignored", act |-> "window", c |-> q, n |-> d]
    [] name = "union"       -> Solid("refract", << Sph(q, 1), Sph(ZAt(q, d, 1), 2) >>, Two_("union"))
    [] name = "lens"        -> Solid("refract", << Sph(q, 2), Sph(ZAt(q, d, 1), 2) >>, Two_("intersect"))
    [] name = "meniscus"    -> Solid("refract", << Sph(q, 2), Sph(ZAt(q, d, -1), 2) >>, Two_("difference"))
    [] name = "shell"       -> Solid("mirror", << Sph(q, 2), Sph(q, 1) >>, Two_("difference"))
    [] name = "nothing"     -> Solid("mirror", << Sph(q, 1), Sph(q, 2) >>, Two_("difference"))
    [] name = "pipe"        -> Solid("mirror", << Cyl(q, x, 2), Cyl(q, x, 1) >>, Two_("difference"))
    [] name = "bore"        -> Solid("mirror", << Sph(q, 2), Cyl(q, d, 1) >>, Two_("difference"))     \* runs through the hole
    [] name = "rod"         -> Solid("refract", << Cyl(q, y, 1) >>, Leaf(1))

Tilted == {"tilt_disc", "tilt_rect", "dmd"}
Edgy == {"detector_edge", "detector_corner", "rim"}
Catalogue(q, d) == {[name |-> name] @@ Optic(name, q, d, E0(d)) : name \in Kinds \ Tilted}
                   \cup {[name |-> name] @@ Optic(name, q, d, e) : name \in Kinds \cap Tilted, e \in Across(d)}
Askew(w) == \E i \in 1 .. Len(w) : w[i].name \in Tilted

(* ----------------------------- behaviours --------------------------- *)
Ops(name) ==
  LET L(p, d, order, type) == [op |-> "launch", p |-> p, d |-> d, order |-> order, type |-> type]
      O == << 0, 0, 0 >>  Z == << 0, 0, 1 >>
      A == L(O, Z, 0, "normal")
      R(r, D, cap) == [op |-> "run", r |-> r, D |-> D, cap |-> cap]
      B == [op |-> "back", r |-> 1]
      F(D) == [op |-> "fly", r |-> 1, D |-> D]                          \* a single flight, forward or backward
      V(D, cap) == [op |-> "bare", r |-> 1, D |-> D, cap |-> cap]       \* a run without optics
      S(order) == [op |-> "set", r |-> 1, order |-> order]              \* the user gives the ray another order
  IN CASE name = "split"   -> << A, R(1, 3, -1), R(1, 4, -1), R(1, 5, -1) >>
       [] name = "short"   -> << A, R(1, 4, -1), R(1, 0, -1), R(1, 11, -1) >>
       [] name = "caps"    -> << A, R(1, 30, 0), R(1, 30, 1), R(1, 30, 2), R(1, 7, -1) >>
       [] name = "twice"   -> << A, R(1, 14, -1), A, R(2, 14, -1) >>
       [] name = "there"   -> << A, R(1, 15, -1), B, R(2, 15, -1) >>
       [] name = "profile" -> << L(O, Z, 0, "faerie_fire"), R(1, 30, -1), R(1, 30, -1), A, R(2, 9, -1) >>
       [] name = "order"   -> << L(O, Z, 1, "normal"), R(1, 9, -1), A, R(2, 9, -1) >>
       [] name = "cross"   -> << A, L(<< 4, 0, 8 >>, << -1, 0, 0 >>, 0, "normal"), R(1, 6, -1), R(2, 14, -1), R(1, 8, -1), R(2, 3, -1) >>
       [] name = "flight"  -> << A, F(2), R(1, 5, -1), F(-3), R(1, 9, -1) >>
       [] name = "open"    -> << A, V(3, -1), R(1, 6, -1), V(5, 0), V(5, 1), R(1, 5, -1) >>
       [] name = "orders"  -> << A, R(1, 5, -1), S(1), R(1, 9, -1), S(0), R(1, 6, -1) >>

Flown == -1                                 \* in via: where a flight ended
NoRun == [on |-> FALSE, rem |-> 0, cap |-> 0, cnt |-> 0]
Len_(ray) == LET RECURSIVE S(_)
                 S(j) == IF j = Len(ray.path) THEN 0
                         ELSE ZAbs(ZDot(ZSub(ray.path[j + 1], ray.path[j]), << 1, 1, 1 >>)) + S(j + 1)
             IN  S(1)

Init == /\ script \in Scripts
        /\ world = << >> /\ rays = << >> /\ run = NoRun /\ hits = << >> /\ at = 1 /\ cur = 0
        /\ chosen = TRUE /\ log = << >> /\ legs = {} /\ over = FALSE

Op == Ops(script)[at]
More == at <= Len(Ops(script)) /\ ~over

Launch(p, d, order, type) ==
  /\ rays' = Append(rays, ZLaunch(p, d, order, type))
  /\ log' = Append(log, [op |-> "launch", p |-> p, d |-> d, order |-> order, type |-> type])
  /\ at' = at + 1
  /\ UNCHANGED << world, run, hits, script, cur, chosen, legs, over >>
DoLaunch == More /\ ~run.on /\ Op.op = "launch" /\ Launch(Op.p, Op.d, Op.order, Op.type)
DoBack   == More /\ ~run.on /\ Op.op = "back" /\ Launch(rays[Op.r].pos, ZNeg(rays[Op.r].dir), 0, "normal")

Entry(op, ray) == op @@ [path |-> ray.path, dir |-> ray.dir, blocked |-> ray.blocked, hits |-> hits, via |-> ray.via]
\* a flight meets nothing and turns nothing; it moves absorbed rays as well
DoFly == /\ More /\ ~run.on /\ Op.op = "fly"
         /\ LET ray == ZMove(rays[Op.r], ZAt(rays[Op.r].pos, rays[Op.r].dir, Op.D), Flown) IN
            /\ rays' = [rays EXCEPT ![Op.r] = ray]
            /\ log' = Append(log, Entry(Op, ray))
         /\ at' = at + 1
         /\ UNCHANGED << world, run, hits, script, cur, chosen, legs, over >>
DoSet == /\ More /\ ~run.on /\ Op.op = "set"
         /\ rays' = [rays EXCEPT ![Op.r].order = Op.order]
         /\ log' = Append(log, Op)
         /\ at' = at + 1
         /\ UNCHANGED << world, run, hits, script, cur, chosen, legs, over >>

Begin == /\ More /\ ~run.on /\ Op.op \in {"run", "bare"}
         /\ run' = ZRun(Op.D, Op.cap) /\ cur' = Op.r /\ chosen' = (Op.op = "bare")
         /\ UNCHANGED << world, rays, hits, script, at, log, legs, over >>
\* the optics this run is given
Given == IF Op.op = "bare" THEN << >> ELSE world

Ray == rays[cur]
\* no leg travelled so far would have been another one with this optic in the world
Harmless(o) == \A l \in legs : OnMap(o, l[1], l[2]) /\ \A t \in Crossings(o, l[1], l[2]) : t > l[3]
\* in a world with tilted mirrors the code computes with rounding errors: no coincidences there
Room(o) == ~(Askew(Append(world, o)) /\ \E i \in 1 .. Len(world) + 1 : Append(world, o)[i].name \in Edgy)
Fresh == run.on /\ Op.op = "run" /\ ~chosen /\ ~ZFinished(Ray, run)
Place == /\ Fresh /\ Len(world) < MaxOptics
         /\ \E t \in (IF Len(Ray.path) = 1 THEN {0, 4} ELSE Reach4) :
              LET q == ZAt(Ray.pos, Ray.dir, t) IN
              \E o0 \in Catalogue(q, Ray.dir) :
                LET o == [id |-> Len(world) + 1] @@ o0 IN
                /\ t # 0 \/ o.k \in {"sphere", "solid"}
                /\ Harmless(o) /\ Room(o)
                /\ OnMap(o, Ray.pos, Ray.dir)
                /\ \E front \in (IF Len(world) = 0 THEN {FALSE} ELSE Back) :
                     world' = IF front THEN << o >> \o world ELSE Append(world, o)
         /\ chosen' = TRUE
         /\ UNCHANGED << rays, run, hits, script, at, cur, log, legs, over >>
Leave == Fresh /\ chosen' = TRUE /\ UNCHANGED << world, rays, run, hits, script, at, cur, log, legs, over >>

Clear == /\ \A i \in 1 .. Len(Given) : OnMap(Given[i], Ray.pos, Ray.dir)
         /\ Askew(Given) => LET S == ZMet(world, Ray, run.rem) IN
                            /\ S # {} => /\ ZFirst(S)[1] # run.rem
                                         /\ \A x \in S : x = ZFirst(S) \/ x[1] # ZFirst(S)[1]
                            /\ \A i \in 1 .. Len(world) : world[i].k \in {"disc", "rect", "concave"} /\ ZDot(Ray.dir, world[i].n) # 0
                                 => LET t == FlatT(world[i], Ray.pos, Ray.dir) IN t > 0 => ~OnRim(world[i], ZAt(Ray.pos, Ray.dir, t))
Leg == /\ run.on /\ chosen /\ ~ZFinished(Ray, run) /\ Clear
       /\ LET n == ZStep(Given, Ray, run) IN
          /\ rays' = [rays EXCEPT ![cur] = n[1]]
          /\ run' = n[2]
          /\ legs' = legs \cup (IF Op.op = "run" THEN {<< Ray.pos, Ray.dir, run.rem - n[2].rem >>} ELSE {})
          /\ hits' = IF n[3] > 0 /\ world[n[3]].act = "detector" /\ Ray.type # "faerie_fire"
                     THEN Append(hits, [id |-> world[n[3]].id, at |-> n[1].pos]) ELSE hits
       /\ chosen' = (Op.op = "bare")
       /\ UNCHANGED << world, script, at, cur, log, over >>

Return == /\ run.on /\ ZFinished(Ray, run)
          /\ run' = NoRun /\ at' = at + 1 /\ chosen' = TRUE
          /\ log' = Append(log, Entry(Op, Ray))
          /\ UNCHANGED << world, rays, hits, script, cur, legs, over >>

Done == /\ at > Len(Ops(script)) /\ ~over
        /\ over' = TRUE
        /\ PrintT(ToJson([world |-> world, ops |-> log]))
        /\ UNCHANGED << world, rays, run, hits, script, at, cur, chosen, log, legs >>

Next == DoLaunch \/ DoBack \/ DoFly \/ DoSet \/ Begin \/ Place \/ Leave \/ Leg \/ Return \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------- the properties ------------------------ *)
LegDir(ray, j) == LET v == ZSub(ray.path[j + 1], ray.path[j])  l == ZAbs(v[1]) + ZAbs(v[2]) + ZAbs(v[3]) IN
                  << v[1] \div l, v[2] \div l, v[3] \div l >>
Moved(ray, j) == ZSub(ray.path[j + 1], ray.path[j])
Whole(d) == d \in Axes
\* leg j goes along d, a flight along d or back
Heads(ray, j, d) == LegDir(ray, j) = d \/ (ray.via[j + 1] = Flown /\ LegDir(ray, j) = ZNeg(d))

\* C01
Trajectory == \A r \in 1 .. Len(rays) :
  LET ray == rays[r] IN
  /\ ray.path[Len(ray.path)] = ray.pos
  /\ \A j \in 1 .. Len(ray.path) - 1 : ray.path[j] # ray.path[j + 1] /\ Whole(LegDir(ray, j))
  /\ Len(ray.path) > 1 => Heads(ray, 1, ray.first)
  /\ \A j \in 2 .. Len(ray.path) - 1 : ray.via[j] <= 0 /\ ray.via[j] # Flown => Heads(ray, j, LegDir(ray, j - 1))
TrajectoryGrows == [][\A r \in 1 .. Len(rays) : LET a == rays[r]  b == rays'[r] IN
                        /\ Len(b.path) >= Len(a.path) /\ SubSeq(b.path, 1, Len(a.path)) = a.path
                        /\ Len(b.path) <= Len(a.path) + 1]_vars
FlightStraight == [][(More /\ ~run.on /\ Op.op = "fly") =>
                        /\ rays'[Op.r].dir = rays[Op.r].dir /\ rays'[Op.r].blocked = rays[Op.r].blocked
                        /\ ZSub(rays'[Op.r].pos, rays[Op.r].pos) = ZScale(Op.D, rays[Op.r].dir)
                        /\ hits' = hits]_vars
\* C02
Moves(r) == {k \in 1 .. Len(log) : log[k].op \in {"run", "bare", "fly"} /\ log[k].r = r}
Plain(r) == \A k \in 1 .. Len(log) : log[k].op \in {"bare", "fly", "set"} => log[k].r # r      \* only ordinary runs
Runs(r) == {k \in 1 .. Len(log) : log[k].op = "run" /\ log[k].r = r}
PathLen(path) == LET RECURSIVE S(_)
                     S(j) == IF j >= Len(path) THEN 0
                             ELSE LET v == ZSub(path[j + 1], path[j]) IN ZAbs(v[1]) + ZAbs(v[2]) + ZAbs(v[3]) + S(j + 1)
                 IN  S(1)
Before(k) == LET P == {j \in Moves(log[k].r) : j < k} IN
             IF P = {} THEN 1 ELSE Len(log[CHOOSE j \in P : \A i \in P : i <= j].path)
Budget == \A k \in 1 .. Len(log) : log[k].op \in {"run", "bare"} =>
  LET spent == PathLen(SubSeq(log[k].path, Before(k), Len(log[k].path)))
      acted == Cardinality({j \in Before(k) + 1 .. Len(log[k].path) : log[k].via[j] > 0})
  IN  /\ spent <= log[k].D
      /\ spent = log[k].D \/ log[k].blocked \/ (log[k].cap >= 0 /\ acted = log[k].cap)
      /\ log[k].cap >= 0 => acted <= log[k].cap                            \* C04
      /\ log[k].op = "bare" => acted = 0                                   \* C03
RECURSIVE Through(_, _, _)
Through(w, ray, r) == IF ZFinished(ray, r) THEN ray ELSE LET n == ZStep(w, ray, r) IN Through(w, n[1], n[2])
Start(r) == LET l == log[CHOOSE k \in 1 .. Len(log) : log[k].op = "launch" /\ Cardinality({j \in 1 .. k : log[j].op = "launch"}) = r]
            IN  ZLaunch(l.p, l.d, l.order, l.type)
RECURSIVE Sum(_)
Sum(K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN log[k].D + Sum(K \ {k})
Splitting == over => \A r \in 1 .. Len(rays) :
  Plain(r) /\ (\A k \in Runs(r) : log[k].cap = -1) =>
     LET one == Through(world, Start(r), ZRun(Sum(Runs(r)), -1)) IN
     one.pos = rays[r].pos /\ one.dir = rays[r].dir /\ one.blocked = rays[r].blocked
\* C03
Nearest == \A l \in legs : \A i \in 1 .. Len(world) : OnMap(world[i], l[1], l[2]) => \A t \in Crossings(world[i], l[1], l[2]) : t >= l[3]
Ended == \A r \in 1 .. Len(rays) : \A j \in 1 .. Len(rays[r].path) - 1 :
  rays[r].via[j + 1] > 0 =>
     \E i \in 1 .. Len(world) : world[i].id = rays[r].via[j + 1] /\ PathLen(SubSeq(rays[r].path, j, j + 1)) \in Crossings(world[i], rays[r].path[j], LegDir(rays[r], j))
Reversed_(w) == [i \in 1 .. Len(w) |-> w[Len(w) + 1 - i]]
NoTies == \A l \in legs : Cardinality({i \in 1 .. Len(world) : l[3] \in Crossings(world[i], l[1], l[2])}) <= 1
Listing == over /\ NoTies => \A r \in 1 .. Len(rays) :
  Plain(r) /\ Cardinality(Runs(r)) = 1 =>
     LET k == CHOOSE k \in Runs(r) : TRUE  b == Through(Reversed_(world), Start(r), ZRun(log[k].D, log[k].cap)) IN
     b.path = rays[r].path /\ b.blocked = rays[r].blocked
\* C04
Final == [][\A r \in 1 .. Len(rays) : rays[r].blocked => rays'[r] = rays[r] \/ (~run.on /\ Op.op \in {"fly", "set"})]_vars
\* C14
Acted(ray) == CHOOSE j \in 1 .. Len(ray.path) : ray.via[j] > 0 /\ \A i \in j + 1 .. Len(ray.path) : ray.via[i] <= 0
Recorded == LET taken == {<< r, rays[r].via[Acted(rays[r])], rays[r].path[Acted(rays[r])] >> : r \in {r \in 1 .. Len(rays) :
                            rays[r].blocked /\ rays[r].type # "faerie_fire"}}
               sinks == {world[i].id : i \in {i \in 1 .. Len(world) : world[i].act = "detector"}}
           IN  /\ Len(hits) = Cardinality({x \in taken : x[2] \in sinks})
               /\ \A k \in 1 .. Len(hits) : \E x \in taken : x[2] = hits[k].id /\ x[3] = hits[k].at
\* C15
Deterministic == over /\ script = "twice" => (rays[1].path = rays[2].path /\ rays[1].dir = rays[2].dir /\ rays[1].blocked = rays[2].blocked)
\* C16
Unit == \A r \in 1 .. Len(rays) : rays[r].dir \in Axes
\* C27
Reverses(o) == o.act \in {"mirror", "ideal", "refract", "annotation", "window"}
StartsOnSurface == \E i \in 1 .. Len(world) : LET d == rays[1].first IN
                      1 \in Crossings(world[i], ZAt(rays[1].path[1], d, 1), ZNeg(d))
Reversible == over /\ script = "there" /\ (\A i \in 1 .. Len(world) : Reverses(world[i])) /\ rays[1].via[Len(rays[1].via)] = 0
                /\ NoTies /\ ~StartsOnSurface =>
  /\ rays[2].path = Reversed_(rays[1].path)
  /\ rays[2].dir = ZNeg(rays[1].first)

(* ----------------------- refinement of Tracer ----------------------- *)
IR(i) == Int2R(i)
IV(v) == << IR(v[1]), IR(v[2]), IR(v[3]) >>
RealPrims(o) == [i \in 1 .. Len(o.prims) |->
                   IF o.prims[i].shape = "sphere" THEN [shape |-> "sphere", c |-> IV(o.prims[i].c), R |-> IR(o.prims[i].R)]
                   ELSE [shape |-> "cyl", c |-> IV(o.prims[i].c), R |-> IR(o.prims[i].R), a |-> IV(o.prims[i].a)]]
Real_(o) == [f \in DOMAIN o |->
               CASE f \in {"c", "n", "tan", "dmd"} -> IV(o[f])
                 [] f \in {"R", "h", "w", "f", "G"} -> IR(o[f])
                 [] f = "prims" -> RealPrims(o)
                 [] OTHER -> o[f]] @@ [index |-> Rat(3, 2)]
RealRay(z) == LaunchRay(IV(z.pos), IV(z.dir), IR(500), IR(z.order), z.type)

\* the step of Tracer from the corresponding state
Refines ==
  (run.on /\ chosen /\ ~ZFinished(Ray, run) /\ Clear) =>
    LET ex == ~Askew(Given)
        opt == [i \in 1 .. Len(Given) |-> Real_(Given[i])]
        F == Flight(opt, IV(Ray.pos), IV(Ray.dir), IR(run.rem), ex)
        n == ZStep(Given, Ray, run)
        ns == Steps(opt, RealRay(Ray), [rem |-> IR(run.rem), cap |-> run.cap, cnt |-> run.cnt], ex)
    IN  /\ F.sure
        /\ Cardinality(ns) >= 1
        /\ \E x \in ns :
             /\ x[3] = n[3]
             /\ VNear(x[1].pos, IV(n[1].pos), Tol12)
             /\ VNear(x[1].dir, IV(n[1].dir), Tol12)
             /\ x[1].blocked = n[1].blocked
             /\ Near(x[2].rem, IR(n[2].rem), Tol12)
             /\ x[2].cnt = n[2].cnt
             /\ Cardinality(ns) = 1
=============================================================================
