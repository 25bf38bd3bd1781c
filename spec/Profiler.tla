------------------------------ MODULE Profiler ------------------------------
(***************************************************************************)
(* The structured profiler as a state machine.                             *)
(*                                                                         *)
(* A profile is known only by the data it has been given: its columns, and *)
(* per column the sequence of all cells in arrival order.  Everything the  *)
(* profile reports is a function of that data (Column.tla for one column,  *)
(* GlobalOf below for the table).  The operations a user can perform are   *)
(* the ops handled by Step:                                                *)
(*                                                                         *)
(*   new     p := a profile of a first batch                               *)
(*   update  p receives one more batch (columns matched by name)           *)
(*   merge   r := p + q                                                    *)
(*   reload  r := load(save(p))                                            *)
(*   report  look at p                                                     *)
(*   diff    compare p with q                                              *)
(*                                                                         *)
(* Step is a deterministic function from states to states, shared by the   *)
(* exhaustive model (ProfilerMC), the behaviour generator (ProfilerGen)    *)
(* and the trace checker (ProfilerTrace).                                  *)
(***************************************************************************)
EXTENDS Order, Nulls, Categories, Options

\* ids: the label of each row; off: the statistics that are not computed
Off == [on |-> FALSE, cols |-> <<>>, h |-> <<>>, ids |-> <<>>, off |-> {}, via |-> {}, bs |-> <<>>, ord |-> <<>>, ct |-> <<>>, smp |-> <<>>]
\* the options preset (a model constant of the run, see Nulls.tla)
NonNull(cfg, j, cells) == SelectSeq(cells, LAMBDA c : ~IsNull(cfg, j, c))

NRows(p) == IF p.h = <<>> THEN 0 ELSE Len(p.h[1])

\* Column names are matched ignoring letter case; the i-th occurrence of a
\* repeated name matches the i-th occurrence.
Occ(names, j) == Cardinality({k \in 1..j : Lower(names[k]) = Lower(names[j])})
Matches(a, j, b, k) == Lower(a[j]) = Lower(b[k]) /\ Occ(a, j) = Occ(b, k)
Repeated(a, j) == \E k \in 1..Len(a) : k # j /\ Lower(a[k]) = Lower(a[j])
SameSchema(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) : \E k \in 1..Len(b) : Matches(a, j, b, k)
  \* columns that share a name can only be told apart by their position
  /\ \A j \in 1..Len(a) : Repeated(a, j) => Lower(a[j]) = Lower(b[j])
\* position in b of the column matching column j of a
Where(a, j, b) == CHOOSE k \in 1..Len(b) : Matches(a, j, b, k)
\* Two profiles are merged only if their columns have the very same names.
MergeSchema(a, b) == SameSchema(a, b) /\ \A j \in 1..Len(a) : b[Where(a, j, b)] = a[j]

\* bs: the sizes of the batches the data came in; ord: the order of each column;
\* ct: its category tracking (only used under the presets that limit it)
Track(cfg, a, vs) == IF cfg = "stop" THEN CatFeed(cfg, a, vs) ELSE a
\* Rows keep the labels they come with unless the new labels overlap the range
\* of those before: then they are moved past them.
MinOf(s) == Min({s[i] : i \in 1..Len(s)})
MaxOf(s) == Max({s[i] : i \in 1..Len(s)})
Place(a, b) ==
  IF a = <<>> \/ b = <<>> \/ MaxOf(b) < MinOf(a) \/ MaxOf(a) < MinOf(b) THEN a \o b
  ELSE LET m == MaxOf(a) + 1 IN a \o [i \in 1..Len(b) |-> b[i] + m]
Elements(s) == {s[i] : i \in 1..Len(s)}

\* A profile may look at samples of its batches only (Sampling.tla): op.take[j]
\* are then the positions at which column j was looked at.  smp holds all the
\* data, the labels of the rows looked at in each column, the rows looked at in
\* every column, and the sample sizes asked for.
Sampled(op) == "take" \in DOMAIN op /\ op.take # <<>>
At(s, P) == LET ks == SetToSortSeq(P, <) IN [i \in 1..Len(ks) |-> s[ks[i]]]
Taken(op) == IF ~Sampled(op) THEN op ELSE [op EXCEPT !.data = [j \in 1..Len(op.data) |-> At(op.data[j], op.take[j])]]
Sample(op, ids) ==
  IF ~Sampled(op) THEN <<>> ELSE
  LET n == Len(op.data)
      ks == SetToSortSeq({i \in op.take[1] : \A j \in 1..n : i \in op.take[j]}, <) IN
  [all |-> op.data, lab |-> [j \in 1..n |-> At(ids, op.take[j])],
   full |-> [j \in 1..n |-> [i \in 1..Len(ks) |-> op.data[j][ks[i]]]], k |-> op.k, mt |-> op.mt]
JoinSamples(a, b) ==
  IF a = <<>> \/ b = <<>> THEN a ELSE
  LET glue(x, y) == [j \in 1..Len(x) |-> x[j] \o y[j]] IN
  [a EXCEPT !.all = glue(@, b.all), !.lab = glue(@, b.lab), !.full = glue(@, b.full)]
\* the labels b gets when it is placed after a
Placed(a, b) == SubSeq(Place(a, b), Len(a) + 1, Len(a) + Len(b))

Fresh(op, cfg) == [on |-> TRUE, cols |-> op.cols, h |-> op.data, via |-> {"new"},
                   ids |-> op.ids, off |-> Elements(op.off), smp |-> <<>>,
                   bs |-> <<Len(op.data[1])>>,
                   ord |-> [j \in 1..Len(op.cols) |-> BatchOrder(NonNull(cfg, j, op.data[j]), 0)],
                   ct |-> [j \in 1..Len(op.cols) |-> Track(cfg, CatState(<<>>), NonNull(cfg, j, op.data[j]))]]
BatchLen(op) == IF op.data = <<>> THEN 0 ELSE Len(op.data[1])
Extend(p, op, cfg) ==
  [p EXCEPT !.h = [j \in 1..Len(p.cols) |-> p.h[j] \o op.data[Where(p.cols, j, op.cols)]],
            !.via = @ \cup {"update"}, !.ids = Place(@, op.ids),
            !.bs = Append(@, BatchLen(op)),
            !.ord = [j \in 1..Len(p.cols) |->
                       IF p.ord[j].o = "random" THEN p.ord[j] ELSE
                       Combine(p.ord[j], BatchOrder(NonNull(cfg, j, op.data[Where(p.cols, j, op.cols)]), p.ord[j].t))],
            !.ct = [j \in 1..Len(p.cols) |-> Track(cfg, p.ct[j], NonNull(cfg, j, op.data[Where(p.cols, j, op.cols)]))]]
Plus(p, q, cfg) ==
  [on |-> TRUE, cols |-> p.cols,
   h |-> [j \in 1..Len(p.cols) |-> p.h[j] \o q.h[Where(p.cols, j, q.cols)]],
   via |-> p.via \cup q.via \cup {"merge"},
   ids |-> Place(p.ids, q.ids), off |-> p.off \cup q.off,
   smp |-> IF p.smp = <<>> THEN <<>>
           ELSE LET x == Placed(p.ids, q.ids)
                    new(l) == x[CHOOSE i \in 1..Len(q.ids) : q.ids[i] = l] IN
                JoinSamples(p.smp, [q.smp EXCEPT !.lab = [j \in 1..Len(@) |-> [i \in 1..Len(@[j]) |-> new(@[j][i])]]]),
   bs |-> p.bs \o q.bs,
   ord |-> [j \in 1..Len(p.cols) |-> Combine(p.ord[j], q.ord[Where(p.cols, j, q.cols)])],
   ct |-> [j \in 1..Len(p.cols) |-> CatJoin(cfg, p.ct[j], q.ct[Where(p.cols, j, q.cols)])]]

\* Does the operation succeed?  (An empty batch is accepted and ignored.)
Accepts(st, op) ==
  CASE op.op = "new"    -> Coherent(Elements(op.off))
    [] op.op = "update" -> BatchLen(op) = 0 \/ SameSchema(st[op.p].cols, op.cols)
    [] op.op = "merge"  -> MergeSchema(st[op.p].cols, st[op.q].cols) /\ SameParts(st[op.p].off, st[op.q].off)
    [] OTHER            -> TRUE

Step(st, op, cfg) ==
  IF ~Accepts(st, op) THEN st          \* a rejected operation changes nothing
  ELSE CASE op.op = "new"    -> [st EXCEPT ![op.p] = [Fresh(Taken(op), cfg) EXCEPT !.smp = Sample(op, op.ids)]]
         [] op.op = "update" -> IF BatchLen(op) = 0 THEN st
                                ELSE [st EXCEPT ![op.p] = [Extend(@, Taken(op), cfg)
                                     EXCEPT !.smp = JoinSamples(@, Sample(op, Placed(st[op.p].ids, op.ids)))]]
         [] op.op = "merge"  -> [st EXCEPT ![op.r] = Plus(st[op.p], st[op.q], cfg)]
         [] op.op = "reload" -> [st EXCEPT ![op.r] = [st[op.p] EXCEPT !.via = @ \cup {op.m}]]
         [] OTHER            -> st

\* Which profile an operation may change; every other one must stay as it is.
Target(op) == CASE op.op \in {"new", "update"} -> op.p
                [] op.op \in {"merge", "reload"} -> op.r
                [] OTHER -> 0

--------------------------------------------------------------------------
\* Table-level statistics.
Row(h, i) == [j \in 1..Len(h) |-> h[j][i]]
\* (null(j, c): cell c of column j counts as missing)
GlobalOf(p, null(_, _)) ==
  LET all  == IF p.smp = <<>> THEN p.h ELSE p.smp.all
      full == IF p.smp = <<>> THEN p.h ELSE p.smp.full
      m == IF all = <<>> THEN 0 ELSE Len(all[1])
      n == IF full = <<>> THEN 0 ELSE Len(full[1])
      lens == {Len(p.h[j]) : j \in 1..Len(p.h)}
      \* nullness per column, so each cell is classified once
      nl == [j \in 1..Len(p.h) |-> {i \in 1..n : null(j, full[j][i])}]
  IN [ rows   |-> m,
       ncols  |-> Len(p.cols),
       used   |-> IF lens = {} THEN 0 ELSE Max(lens),
       \* how many rows were looked at in every column, and whether the counts show it
       clear  |-> lens = {} \/ Min(lens) = n,
       hasnull |-> Cardinality({i \in 1..n : \E j \in 1..Len(p.h) : i \in nl[j]}),
       isnull |-> Cardinality({i \in 1..n : \A j \in 1..Len(p.h) : i \in nl[j]}),
       uniq   |-> Cardinality({Row(all, i) : i \in 1..m}) ]
=============================================================================
