----------------------------- MODULE Categories -----------------------------
(***************************************************************************)
(* The category side of a column under the options which limit it:         *)
(*                                                                         *)
(*   topk   the report lists only the two most frequent categories         *)
(*   stop   once a batch brings the column to at least 6 values of which   *)
(*          at least half are distinct, categories are given up for good   *)
(*          and the distinct count stays what it was then                  *)
(*   heavy  (count-min sketch with 4 heavy hitters) only values making up  *)
(*          at least a quarter of the column are categories                *)
(*                                                                         *)
(* Kept per column: stop (given up), uc and sz (distinct count and number  *)
(* of values when it was).                                                 *)
(***************************************************************************)
EXTENDS Column

StopN == 6
StopPct == 50
HeavyK == 4

CatState(vs) == [stop |-> FALSE, uc |-> 0, sz |-> 0, vs |-> vs]
Distinct(vs) == Cardinality({vs[i] : i \in 1..Len(vs)})
CatSize(a) == IF a.stop THEN a.sz ELSE Len(a.vs)
CatUniq(a) == IF a.stop THEN a.uc ELSE Distinct(a.vs)
CatCheck(cfg, a) ==
  IF cfg = "stop" /\ ~a.stop /\ Len(a.vs) >= StopN /\ 100 * Distinct(a.vs) >= StopPct * Len(a.vs)
  THEN [stop |-> TRUE, uc |-> Distinct(a.vs), sz |-> Len(a.vs), vs |-> <<>>] ELSE a
\* a batch of (non-null) values arrives
CatFeed(cfg, a, vs) == IF a.stop \/ vs = <<>> THEN a ELSE CatCheck(cfg, [a EXCEPT !.vs = @ \o vs])
\* two columns are merged: if either has given up, the one with more values speaks for both
CatJoin(cfg, a, b) ==
  IF ~a.stop /\ ~b.stop THEN CatCheck(cfg, CatState(a.vs \o b.vs))
  ELSE LET w == IF CatSize(a) > CatSize(b) THEN a ELSE b
       IN [stop |-> TRUE, uc |-> CatUniq(w), sz |-> CatSize(w), vs |-> <<>>]

\* what is reported
Heavy(cfg, bag, v) == IF cfg # "heavy" THEN bag
                      ELSE [x \in {y \in DOMAIN bag : bag[y] * HeavyK >= v} |-> bag[x]]
Listing(cfg, bag, shown) ==      \* shown: a sequence of <<value, count>>
  LET k == IF cfg = "topk" /\ Cardinality(DOMAIN bag) > 2 THEN 2 ELSE Cardinality(DOMAIN bag)
      names == {shown[i][1] : i \in 1..Len(shown)}
  IN /\ Len(shown) = k /\ Cardinality(names) = k
     /\ \A i \in 1..k : shown[i][1] \in DOMAIN bag /\ bag[shown[i][1]] = shown[i][2]
     /\ \A i \in 1..(k - 1) : shown[i][2] >= shown[i + 1][2]
     /\ \A x \in DOMAIN bag \ names : \A i \in 1..k : bag[x] <= shown[i][2]
=============================================================================
