------------------------------- MODULE BulkGen ------------------------------
(***************************************************************************)
(* Samples behaviours of Bulk.tla: long tables around the sizes at which   *)
(* the profiler changes how it works.                                      *)
(***************************************************************************)
EXTENDS Bulk, Cells, Json
CONSTANTS SeedLo, SeedHi, Flavour, NOps
VARIABLES seed, st, ops, rng, plan, done
NSlots == 3
Slots == 1..NSlots
MaxRows == 80000

Counts == <<1, 1, 2, 3, 7, 20, 50, 99, 100, 101, 200, 499, 500, 501, 999, 1000, 1001, 1500, 2047, 2048, 2049, 4999, 5000, 5001, 9000, 15000>>
Ints == << <<"0">>, <<"1">>, <<"-","1">>, <<"2">>, <<"-","2">>, <<"1">> >>
Flts == << <<"0",".","5">>, <<"-","1",".","5">>, <<"1",".","2","5">>, <<"1">>, <<"0">> >>
Wrds == << <<"a">>, <<"b","b">>, <<"x","y">>, <<"Z">>, <<"1","a">>, <<"-","_">> >>
Dats == << <<"2","0","2","0","-","0","1","-","0","2">>, <<"2","0","1","9","-","1","2","-","3","1">>, <<"2","0","2","1","-","0","6","-","0","1">> >>
Nuls == << <<>>, <<"n","a","n">>, <<"-","-">> >>
Kinds == <<"int", "flt", "wrd", "dat", "int", "flt", "nul">>
One(kind, r) == CASE kind = "int" -> RPick(r, Ints) [] kind = "flt" -> RPick(r, Flts) [] kind = "wrd" -> RPick(r, Wrds)
                  [] kind = "dat" -> RPick(r, Dats) [] OTHER -> RPick(r, Nuls)
Pure(r) == RChance(r, 50)
MkCell(j, r) ==
  LET k == RVal(r, 100) IN
  One(IF k < plan.nulls[j] THEN "nul" ELSE IF k > 99 - plan.odd[j] THEN RPick(RNext(r), Kinds) ELSE plan.kinds[j], RSkip(r, 2))

MkPlan(r) ==
  LET n == RIn(r, 1, 3) IN
  [nc |-> n, cfg |-> RPick(RSub(r, 2), <<"plain", "plain", "plain", "bias", "hll">>),
   ramp |-> RChance(RSub(r, 3), 30),
   kinds |-> [j \in 1..n |-> RPick(RSub(r, 10 + j), Kinds)],
   nulls |-> [j \in 1..n |-> IF RChance(RSub(r, 20 + j), 50) THEN 0 ELSE RIn(RSub(r, 25 + j), 5, 50)],
   odd |-> [j \in 1..n |-> IF RChance(RSub(r, 30 + j), 50) THEN 0 ELSE RIn(RSub(r, 35 + j), 5, 30)]]

Zero == [op |-> "", p |-> 0, q |-> 0, r |-> 0, nc |-> 0, runs |-> <<>>, ramp |-> <<>>, mix |-> 0, m |-> "", data |-> <<>>]
On == {p \in Slots : st[p].on}
Listed(S) == SetToSortSeq(S, <)
FreeSlot == IF On = Slots THEN NSlots ELSE Min(Slots \ On)
Lately == IF ops = <<>> THEN 0 ELSE LET o == ops[Len(ops)] IN IF o.r # 0 THEN o.r ELSE o.p
APick(r) == IF Lately \in On /\ RChance(RSub(r, 3), 40) THEN Lately ELSE RPick(r, Listed(On))

MkBatch(o, p, r) ==
  LET k == RIn(RSub(r, 1), 1, 6)
      \* a long run of the same row, the others once each
      lone == RChance(RSub(r, 3), 25)
      runs == [i \in 1..k |-> [row |-> [j \in 1..plan.nc |-> MkCell(j, RSub(RSub(r, 40 + i), j))],
                               n |-> IF lone THEN (IF i = 1 THEN 25000 ELSE 1) ELSE RPick(RSub(r, 60 + i), Counts)]]
      n == RowsIn(runs)
  IN [Zero EXCEPT !.op = o, !.p = p, !.nc = plan.nc, !.runs = runs, !.mix = RVal(RSub(r, 2), 2),
        !.ramp = IF plan.ramp /\ plan.cfg # "hll" THEN << <<100000 * (Len(ops) + 1), n>> >> ELSE <<>>]
MkOp(r) ==
  IF On = {} THEN MkBatch("new", 1, r) ELSE
  LET o == RPick(RSub(r, 60), <<"update", "update", "merge", "new", "reload">>)
      p == APick(RSub(r, 52)) q == APick(RSub(r, 54))
      b == MkBatch("update", p, r) IN
  IF o = "reload" THEN [Zero EXCEPT !.op = o, !.p = p, !.r = FreeSlot, !.m = IF plan.cfg # "hll" /\ RChance(RSub(r, 59), 50) THEN "json" ELSE "pickle"]
  ELSE IF o = "merge" /\ RowsIn(st[p].runs) + RowsIn(st[q].runs) <= MaxRows
  THEN [Zero EXCEPT !.op = o, !.p = p, !.q = q, !.r = FreeSlot]
  ELSE IF o = "update" /\ RowsIn(st[p].runs) + RowsIn(b.runs) <= MaxRows THEN b
  ELSE MkBatch("new", FreeSlot, r)

Init == /\ seed \in SeedLo..SeedHi
        /\ rng = RNext(RNext(RNext(RSeed(seed))))
        /\ plan = MkPlan(rng)
        /\ st = [p \in Slots |-> Off] /\ ops = <<>> /\ done = FALSE
Do == /\ Len(ops) < NOps
      /\ LET op == MkOp(RSub(rng, 7)) IN st' = Step(st, op) /\ ops' = Append(ops, op)
      /\ rng' = RSub(rng, 9) /\ UNCHANGED <<seed, plan, done>>
Out == /\ Len(ops) = NOps /\ ~done /\ PrintT(ToJson([seed |-> seed, cfg |-> plan.cfg, ops |-> ops]))
       /\ done' = TRUE /\ UNCHANGED <<seed, st, ops, rng, plan>>
Next == Do \/ Out
View == <<seed, Len(ops), done>>
=============================================================================
