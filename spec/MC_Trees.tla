------------------------------- MODULE MC_Trees ------------------------------
(* All small histories of expression trees (property C18).                  *)
(*                                                                          *)
(* "history": any sequence of Length insertions and value changes, starting *)
(* with one root; every node gets a value of its own.                       *)
(* "expression": full Boolean trees, grown by Length steps that turn a leaf *)
(* into an operator with two leaves, or put an operator between a node and  *)
(* its child (the child is pushed down).                                    *)
EXTENDS BinTrees, FiniteSets, SequencesExt, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "history", "expression" >>, history |-> 4, expression |-> 3]

VARIABLES mode, ops, st, steps, over
vars == << mode, ops, st, steps, over >>

O(op, n, key) == [op |-> op, n |-> n, key |-> key]
Key(i) == << "A", "B", "C", "D", "E", "F", "G", "H", "I", "J" >>[i]
Names == {"union", "intersect", "difference"}
Init == /\ mode \in ToSet(Conf.modes)
        /\ ops = << O("new", 0, Key(1)) >>
        /\ st = Built(<< >>, ops, 1)
        /\ steps = 0 /\ over = FALSE

Length == IF mode = "history" THEN Conf.history ELSE Conf.expression
Do(os) == /\ ops' = ops \o os
          /\ st' = Built(st, os, 1)
          /\ steps' = steps + 1
          /\ UNCHANGED << mode, over >>
Insert == /\ mode = "history" /\ steps < Length
          /\ \E n \in 1 .. Len(st), side \in {"left", "right"} : Do(<< O(side, n, Key(steps + 2)) >>)
Set == /\ mode = "history" /\ steps < Length
       /\ \E n \in 1 .. Len(st) : Do(<< O("set", n, Key(steps + 2)) >>)

LeafNodes == {n \in 1 .. Len(st) : st[n].l = 0 /\ st[n].r = 0}
Grow == /\ mode = "expression" /\ steps < Length
        /\ \E n \in LeafNodes, op \in Names, first \in {"left", "right"} :
             Do(<< O("set", n, op), O(first, n, Key(steps + 2)), O(IF first = "left" THEN "right" ELSE "left", n, "x") >>)
\* n gets a new operator on one side; what was there is its child on that side, a new leaf the other one
Push == /\ mode = "expression" /\ steps < Length
        /\ \E n \in (1 .. Len(st)) \ LeafNodes, op \in Names, side \in {"left", "right"} :
             Do(<< O(side, n, op), O(IF side = "left" THEN "right" ELSE "left", Len(st) + 1, Key(steps + 2)) >>)

PrintedNodes == {n \in 1 .. Len(st) : Full(st, n)}
Done == /\ steps = Length /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([ops |-> ops, st |-> st, prints |-> SetToSeq({[n |-> n, text |-> Printed(st, n)] : n \in PrintedNodes})]))
        /\ UNCHANGED << mode, ops, st, steps >>
Next == Insert \/ Set \/ Grow \/ Push \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------- the properties ------------------------ *)
Nodes == 1 .. Len(st)
Parents(n) == {<< m, 0 >> : m \in {m \in Nodes : st[m].l = n}} \cup {<< m, 1 >> : m \in {m \in Nodes : st[m].r = n}}
\* every node but the root has exactly one parent; nothing is lost or shared, there is no cycle
RECURSIVE Reach(_)
Reach(n) == IF n = 0 THEN {} ELSE {n} \cup Reach(st[n].l) \cup Reach(st[n].r)
Forest == /\ \A n \in Nodes : Cardinality(Parents(n)) = IF n = 1 THEN 0 ELSE 1
          /\ Reach(1) = Nodes

\* one insertion changes one link of one old node
Local == [][LET o == ops'[Len(ops')] IN
            Len(ops') = Len(ops) + 1 =>
              /\ \A n \in Nodes : n # o.n => st'[n] = st[n]
              /\ o.op = "set" => Len(st') = Len(st) /\ st'[o.n] = [st[o.n] EXCEPT !.key = o.key]
              /\ o.op = "left" => /\ Len(st') = Len(st) + 1
                                  /\ st'[o.n] = [st[o.n] EXCEPT !.l = Len(st')]
                                  /\ st'[Len(st')] = [key |-> o.key, l |-> st[o.n].l, r |-> 0]
              /\ o.op = "right" => /\ Len(st') = Len(st) + 1
                                   /\ st'[o.n] = [st[o.n] EXCEPT !.r = Len(st')]
                                   /\ st'[Len(st')] = [key |-> o.key, l |-> 0, r |-> st[o.n].r]]_vars

\* Reading the printed expression gives the tree back.  Parse(t, i): <<the tree, the position after it>>
Ch(t, i) == SubSeq(t, i, i)
OpAt(t, i) == CASE SubSeq(t, i, i + 2) = " u " -> "union" [] SubSeq(t, i, i + 2) = " n " -> "intersect"
                [] SubSeq(t, i, i + 2) = " \\ " -> "difference"
RECURSIVE Parse(_, _)
Parse(t, i) ==
  IF Ch(t, i) = "("
  THEN LET l == Parse(t, i + 2)
           r == Parse(t, l[2] + 3)
       IN  << << OpAt(t, l[2]), l[1], r[1] >>, r[2] + 2 >>
  ELSE << << Ch(t, i), << >>, << >> >>, i + 1 >>
Faithful == \A n \in PrintedNodes : LET t == Printed(st, n) IN Parse(t, 1) = << Below(st, n), Len(t) + 1 >>
Printable == mode = "expression" => Full(st, 1)
=============================================================================
