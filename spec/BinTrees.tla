------------------------------ MODULE BinTrees ------------------------------
(* Expression trees (property C18).  Nodes have an identity: a store is a   *)
(* sequence of nodes [key, l, r], l and r being indices into it, 0: none.   *)
EXTENDS Integers, Sequences

NewNode(key) == [key |-> key, l |-> 0, r |-> 0]

\* put a new node with the key below node n on a side; what was there goes below the new node, on the same side
InsertLeft(st, n, key)  == [Append(st, [NewNode(key) EXCEPT !.l = st[n].l]) EXCEPT ![n].l = Len(st) + 1]
InsertRight(st, n, key) == [Append(st, [NewNode(key) EXCEPT !.r = st[n].r]) EXCEPT ![n].r = Len(st) + 1]
SetKey(st, n, key)      == [st EXCEPT ![n].key = key]

\* an operation [op, n, key]; "new" makes a root of its own
DoTreeOp(st, o) ==
  CASE o.op = "new"   -> Append(st, NewNode(o.key))
    [] o.op = "left"  -> InsertLeft(st, o.n, o.key)
    [] o.op = "right" -> InsertRight(st, o.n, o.key)
    [] o.op = "set"   -> SetKey(st, o.n, o.key)

RECURSIVE Built(_, _, _)
Built(st, ops, k) == IF k > Len(ops) THEN st ELSE Built(DoTreeOp(st, ops[k]), ops, k + 1)

\* the tree below a node, without identities (keys, in a nested record; "" for no subtree)
RECURSIVE Below(_, _)
Below(st, n) == IF n = 0 THEN << >> ELSE << st[n].key, Below(st, st[n].l), Below(st, st[n].r) >>

(* ---- printing: keys are character sequences of leaves, or the names of the operators ---- *)
Full(st, n) ==     \* every node has none or two children, and the inner ones are operators
  LET RECURSIVE F(_)
      F(k) == IF st[k].l = 0 /\ st[k].r = 0 THEN st[k].key \notin {"union", "intersect", "difference"}
              ELSE st[k].l # 0 /\ st[k].r # 0 /\ st[k].key \in {"union", "intersect", "difference"} /\ F(st[k].l) /\ F(st[k].r)
  IN  F(n)
Symbol(op) == CASE op = "union" -> " u " [] op = "intersect" -> " n " [] op = "difference" -> " \\ "
RECURSIVE Printed(_, _)
Printed(st, n) == IF st[n].l = 0 THEN st[n].key
                  ELSE "( " \o Printed(st, st[n].l) \o Symbol(st[n].key) \o Printed(st, st[n].r) \o " )"

TFlag(cond, clause) == IF cond THEN {clause} ELSE {}
\* ev.ops the operations so far, ev.obs the nodes as the getters show them, ev.prints: [n, text]
JudgeTree(ev) ==
  LET st == Built(<< >>, ev.ops, 1) IN
  TFlag(\E k \in 1 .. Len(st) : k > Len(ev.obs) \/ ev.obs[k].key # st[k].key, "C18:wrong value of a node")
  \cup TFlag(Len(st) # Len(ev.obs) \/ \E k \in 1 .. Len(ev.obs) : ev.obs[k].l # st[k].l \/ ev.obs[k].r # st[k].r, "C18:wrong shape of the tree")
  \cup TFlag(\E k \in 1 .. Len(ev.prints) : Full(st, ev.prints[k].n) /\ ev.prints[k].text # Printed(st, ev.prints[k].n), "C18:wrong expression printed")
=============================================================================
