------------------------------ MODULE MC_Solids ------------------------------
(* All small Boolean solids, seen from everywhere (properties C07 and C08). *)
(*                                                                          *)
(* Every tree with up to Conf.leaves leaves over the primitives of the pool *)
(* (balls and cylinders strung along the z axis, many of them touching or   *)
(* coinciding), met by rays along the axis and across it from lattice       *)
(* points, and asked about the points of a line.                            *)
EXTENDS Maze, Tracer, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL) ELSE [leaves |-> << 1, 2, 3 >>, pool |-> 6]

Sph(z, R) == [shape |-> "sphere", c |-> << 0, 0, z >>, R |-> R]
Cyl(x, z, a, R) == [shape |-> "cyl", c |-> << x, 0, z >>, a |-> a, R |-> R]
Pool == << Sph(0, 2), Sph(1, 1), Sph(2, 2), Cyl(0, 1, << 1, 0, 0 >>, 2), Cyl(0, 0, << 0, 0, 1 >>, 1), Sph(0, 1),
           Cyl(4, 0, << 0, 0, 1 >>, 2), Sph(-3, 1), Cyl(0, -1, << 0, 1, 0 >>, 1), Sph(0, 3) >>

LeafAt(i) == [op |-> "leaf", i |-> i]
RECURSIVE TreesOver(_, _)
TreesOver(lo, hi) ==
  IF lo = hi THEN {LeafAt(lo)}
  ELSE {[op |-> op, l |-> l, r |-> r] : op \in {"union", "intersect", "difference"},
        l \in UNION {TreesOver(lo, m) : m \in {lo}}, r \in TreesOver(lo + 1, hi)}
       \cup UNION {{[op |-> op, l |-> l, r |-> r] : op \in {"union", "intersect", "difference"}, l \in TreesOver(lo, m), r \in TreesOver(m + 1, hi)} :
                   m \in lo + 1 .. hi - 1}

VARIABLES tree, n, prims, over
vars == << tree, n, prims, over >>
Init == /\ n \in ToSet(Conf.leaves)
        /\ tree \in TreesOver(1, n)
        /\ prims = << >> /\ over = FALSE
Choose_ == /\ Len(prims) < n
           /\ \E k \in 1 .. Conf.pool : prims' = Append(prims, Pool[k])
           /\ UNCHANGED << tree, n, over >>

Body_ == [k |-> "solid", act |-> "mirror", prims |-> prims, tree |-> tree]
OffSurface(p) == \A i \in 1 .. n : ZCentral(prims[i], p, << 0, 0, 1 >>).dist # prims[i].R * prims[i].R
\* rays along the axis both ways, and across it
Shots == {x \in ({<< << 0, 0, z >>, << 0, 0, s >> >> : z \in -7 .. 7, s \in {-1, 1}}
                 \cup {<< << x, 0, z >>, << 1, 0, 0 >> >> : x \in {-8, -1}, z \in -3 .. 4}
                 \cup {<< << 0, 9, z >>, << 0, -1, 0 >> >> : z \in -3 .. 4}) :
             OffSurface(x[1]) /\ OnMap(Body_, x[1], x[2])}
Ahead_(x) == Crossings(Body_, x[1], x[2])
First(x) == IF Ahead_(x) = {} THEN 0 ELSE ZMin(Ahead_(x))
Starts(x) == SolidIn(Body_, x[1], x[2], 1)
Shot(x) == [p |-> x[1], d |-> x[2], t |-> First(x), inside |-> Starts(x)]
\* membership of the points half way between lattice points of the axis, from below all primitives to above them
Line == [i \in 1 .. 18 |-> SolidIn(Body_, << 0, 0, -10 >>, << 0, 0, 1 >>, 2 * i + 1)]

Done == /\ Len(prims) = n /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([tree |-> tree, prims |-> prims, shots |-> SetToSeq({Shot(x) : x \in Shots}), line |-> Line]))
        /\ UNCHANGED << tree, n, prims >>
Next == Choose_ \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------- the properties ------------------------ *)
\* C08: the first crossing is where membership first changes, walking along in steps; none means it never does
RECURSIVE Walk(_, _)
Walk(x, t) == IF t > 24 THEN 0
              ELSE IF SolidIn(Body_, x[1], x[2], 2 * t - 1) # SolidIn(Body_, x[1], x[2], 2 * t + 1) THEN t ELSE Walk(x, t + 1)
FirstChangeIsMet == over => \A x \in Shots : First(x) = Walk(x, 1)
\* leaving needs an odd number of crossings unless the solid goes on for ever
Parity == over => \A x \in Shots : SolidIn(Body_, x[1], x[2], 101) = (Starts(x) # (Cardinality(Ahead_(x)) % 2 = 1))

\* the description with real numbers says the same (C07, C08)
IR(i) == Int2R(i)
IV(v) == << IR(v[1]), IR(v[2]), IR(v[3]) >>
RealBody == [k |-> "solid", act |-> "mirror", tree |-> tree,
             prims |-> [i \in 1 .. n |-> IF prims[i].shape = "sphere" THEN [shape |-> "sphere", c |-> IV(prims[i].c), R |-> IR(prims[i].R)]
                                         ELSE [shape |-> "cyl", c |-> IV(prims[i].c), R |-> IR(prims[i].R), a |-> IV(prims[i].a)]]]
Refines == over =>
  LET b == RealBody IN
  /\ \A x \in Shots : LET m == SolidMeet(b, IV(x[1]), IV(x[2]), TRUE) IN
       IF First(x) = 0 THEN m.k = "no" ELSE m.k = "yes" /\ m.t = IR(First(x)) /\ m.start = Starts(x)
  /\ \A i \in 1 .. 18 : PointInSolid(b, << Zero, Zero, Sub(Rat(2 * i + 1, 2), IR(10)) >>) = Line[i]
=============================================================================
