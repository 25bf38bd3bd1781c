----------------------------- MODULE ProfilerMC -----------------------------
(***************************************************************************)
(* Exhaustive check of the design: alongside the data each profile keeps   *)
(* the incrementally maintained summary the implementation would keep      *)
(* (Join on update and merge, copied by save/load), and TLC verifies that  *)
(* in every reachable state it equals the summary of all the data, that an *)
(* operation changes only its target, and that a rejected one changes      *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Profiler
CONSTANTS NP, MaxRows, MaxOps, Alpha

Pid == 1..NP
AlphaSmall == { <<>>, <<"0">>, <<"-","3">>, <<"x">> }
AlphaTiny == { <<>>, <<"5">>, <<"y">> }

VARIABLES st, inc, k, last
vars == <<st, inc, k, last>>

S(s) == Summ(s, DefaultNull)
IncOf(data) == [j \in 1..Len(data) |-> S(data[j])]

ColsA == << <<"a">> , <<"b">> >>
ColsB == << <<"B">> , <<"A">> >>        \* same schema: other order, other case
ColsC == << <<"a">> >>                  \* different schema
Schemas == {ColsA, ColsB, ColsC}

Batches(cols) == UNION {[1..Len(cols) -> [1..n -> Alpha]] : n \in 0..MaxRows}

RowIds(d) == IF d = <<>> THEN <<>> ELSE [i \in 1..Len(d[1]) |-> i - 1]

Init == /\ st = [p \in Pid |-> Off] /\ inc = [p \in Pid |-> <<>>]
        /\ k = 0 /\ last = [op |-> "none"]

Do(op) ==
  /\ k < MaxOps /\ k' = k + 1 /\ last' = op
  /\ st' = Step(st, op, "plain")
  /\ inc' = IF ~Accepts(st, op) THEN inc ELSE
       CASE op.op = "new" -> [inc EXCEPT ![op.p] = IncOf(op.data)]
         [] op.op = "update" /\ BatchLen(op) > 0 ->
              [inc EXCEPT ![op.p] =
                [j \in 1..Len(st[op.p].cols) |->
                   Join(@[j], S(op.data[Where(st[op.p].cols, j, op.cols)]))]]
         [] op.op = "merge" ->
              [inc EXCEPT ![op.r] =
                [j \in 1..Len(st[op.p].cols) |->
                   Join(inc[op.p][j], inc[op.q][Where(st[op.p].cols, j, st[op.q].cols)])]]
         [] op.op = "reload" -> [inc EXCEPT ![op.r] = inc[op.p]]
         [] OTHER -> inc

New    == \E p \in Pid, c \in Schemas : \E d \in Batches(c) :
             ~st[p].on /\ d # <<>> /\ Len(d[1]) > 0 /\ Do([op |-> "new", p |-> p, cols |-> c, data |-> d, off |-> <<>>, ids |-> RowIds(d)])
Update == \E p \in Pid, c \in Schemas : \E d \in Batches(c) :
             st[p].on /\ Do([op |-> "update", p |-> p, cols |-> c, data |-> d, off |-> <<>>, ids |-> RowIds(d)])
Merge  == \E p, q, r \in Pid :
             st[p].on /\ st[q].on /\ ~st[r].on /\ Do([op |-> "merge", p |-> p, q |-> q, r |-> r])
Reload == \E p, r \in Pid : \E m \in {"pickle", "json"} :
             st[p].on /\ ~st[r].on /\ Do([op |-> "reload", p |-> p, r |-> r, m |-> m])
Next == New \/ Update \/ Merge \/ Reload

View == <<st, inc, k>>

IncrementalIsDirect ==
  \A p \in Pid : st[p].on => \A j \in 1..Len(st[p].cols) : inc[p][j] = S(st[p].h[j])
\* all columns of a profile always have the same number of rows
Rectangular == \A p \in Pid : st[p].on => \A j \in 1..Len(st[p].h) : Len(st[p].h[j]) = NRows(st[p])
GlobalSane == \A p \in Pid : st[p].on =>
   LET g == GlobalOf(st[p], LAMBDA j, c : DefaultNull(c)) IN
   g.isnull <= g.hasnull /\ g.hasnull <= g.rows /\ g.uniq <= g.rows /\ (g.rows > 0 => g.uniq > 0)
\* every row keeps a label of its own
LabelsDistinct == \A p \in Pid : st[p].on => /\ Len(st[p].ids) = NRows(st[p])
                                            /\ Cardinality(Elements(st[p].ids)) = NRows(st[p])
OnlyTarget == [][\A p \in Pid : p # Target(last') => st'[p] = st[p]]_vars
RejectsInert == [][~Accepts(st, last') => (st' = st /\ inc' = inc)]_vars
\* merging is independent of the grouping, and of where a batch boundary falls
MergeAssoc == \A p, q, r \in Pid :
   (st[p].on /\ st[q].on /\ st[r].on /\ SameSchema(st[p].cols, st[q].cols)
      /\ SameSchema(st[q].cols, st[r].cols)) =>
   Plus(st[p], Plus(st[q], st[r], "plain"), "plain").h = Plus(Plus(st[p], st[q], "plain"), st[r], "plain").h
=============================================================================
