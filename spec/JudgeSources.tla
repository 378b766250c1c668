---------------------------- MODULE JudgeSources ----------------------------
(* The ray sources (property C17).                                          *)
EXTENDS JudgeVectors

(* ---- the profiling source: ev.n rays asked for, ev.rays the appended ones ---- *)
ProfilingRay(ev, r) ==
  LET u == VScale(One, VSub(r.pos, ev.c))
      tol == FMul(Tol9, Add(Add(ev.R, VMaxAbs(ev.c)), One))
  IN  Flag(~Near(VLen(u), ev.R, tol), "C17:profiling ray does not start on the sphere")
      \cup Flag(~VNear(VScale(Opp(ev.R), r.dir), u, tol) \/ ~Near(VLen(r.dir), One, Tol9), "C17:profiling ray not aimed at the centre")
      \cup Flag(r.type # "faerie_fire", "C17:profiling ray of another type")
      \cup Flag(r.npath # 1 \/ r.blocked, "C17:profiling ray has already travelled")

Octant(d) == << Sign(d[1]) >= 0, Sign(d[2]) >= 0, Sign(d[3]) >= 0 >>
RECURSIVE SumOf(_, _, _)
SumOf(rays, i, k) == IF k = 0 THEN Zero ELSE Add(rays[k].dir[i], SumOf(rays, i, k - 1))

JudgeProfiling(ev) ==
  IF ~ev.fin THEN {"C17:not finite"}
  ELSE Flag(~ev.same, "C17:another list returned")
       \cup Flag(~ev.kept, "C17:earlier entries of the list changed")
       \cup Flag(Len(ev.rays) # ev.n, "C17:wrong number of profiling rays")
       \cup UNION {ProfilingRay(ev, ev.rays[k]) : k \in 1 .. Len(ev.rays)}
       \cup Flag(Cardinality({ev.rays[k].dir : k \in 1 .. Len(ev.rays)}) # Len(ev.rays), "C17:profiling rays repeat")
       \cup (IF Len(ev.rays) < 300 THEN {}
             ELSE Flag(Cardinality({Octant(ev.rays[k].dir) : k \in 1 .. Len(ev.rays)}) # 8
                       \/ \E i \in 1 .. 3 : Lt(Mul(FromInt(Len(ev.rays)), Rat(3, 10)), Abs(SumOf(ev.rays, i, Len(ev.rays)))),
                       "C17:profiling rays do not come from all sides"))

\* ev.counts[k][i]: in how many of ev.m requests the k-th ray went in the positive direction of axis i; a fair
\* source fails this once in 2^(m-1) / (3 Len) times
JudgeSides(ev) ==
  Flag(\E k \in 1 .. Len(ev.counts), i \in 1 .. 3 : ev.counts[k][i] = 0 \/ ev.counts[k][i] = ev.m,
       "C17:a profiling ray always comes from the same side")

(* ---- the image source ---- *)
\* the k-th (from 0) of n values spread evenly over [-half, half]
Spread(half, n, k) == IF n = 1 THEN Zero ELSE Sub(Div(Mul(FromInt(2 * k), half), FromInt(n - 1)), half)

\* the disc of diameter d, its edge included, is red
Red(x, z, d) == Le(Add(Sq(x), Sq(z)), Sq(Half(d)))

BundleOk(ev, m, x, z, a, tol) ==
  /\ Near(ev.origins[m][1], x, tol) /\ Near(ev.origins[m][2], ev.y, Tol12) /\ Near(ev.origins[m][3], z, tol)
  /\ VNear(ev.dirs[m], << Zero, Cos(a), Sin(a) >>, Tol9)

JudgeBundle(ev) ==
  LET n == ev.xr * ev.zr * ev.ar
      tol == FMul(Tol10, Add(One, ev.size))
      at(i, j, k) == (i * ev.zr + j) * ev.ar + k + 1
      present(i, j, k) ==
        LET x == Spread(Half(ev.size), ev.xr, i)
            z == Spread(Half(ev.size), ev.zr, j)
            a == Spread(ev.angle, ev.ar, k)
        IN  BundleOk(ev, at(i, j, k), x, z, a, tol) \/ \E m \in 1 .. n : BundleOk(ev, m, x, z, a, tol)
      colour(m) ==
        LET r2 == Add(Sq(ev.origins[m][1]), Sq(ev.origins[m][3]))
            e2 == Sq(Half(ev.d))
        IN  IF ev.ex \/ ~Near(r2, e2, FMul(Tol9, Add(One, e2))) THEN {IF Le(r2, e2) THEN Int2R(680) ELSE Int2R(450)}
            ELSE {Int2R(680), Int2R(450)}
  IN  IF ~ev.fin THEN {"C17:not finite"}
      ELSE IF Len(ev.origins) # n \/ Len(ev.dirs) # n \/ Len(ev.waves) # n THEN {"C17:wrong number of image rays"}
      ELSE Flag(\E i \in 0 .. ev.xr - 1, j \in 0 .. ev.zr - 1, k \in 0 .. ev.ar - 1 : ~present(i, j, k), "C17:image ray missing or misplaced")
           \cup Flag(\E m \in 1 .. n : ev.waves[m] \notin colour(m), "C17:wrong wavelength of an image ray")

JudgeResolution(ev) ==
  Flag((ev.xr >= 1 /\ ev.zr >= 1 /\ ev.ar >= 1) # ev.accepted,
       IF ev.accepted THEN "C17:non-positive resolution accepted" ELSE "C17:valid resolution rejected")
=============================================================================
