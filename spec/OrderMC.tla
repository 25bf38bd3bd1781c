------------------------------ MODULE OrderMC -------------------------------
(***************************************************************************)
(* Exhaustive check of Order.tla: all ways to feed up to MaxBatches small  *)
(* batches (numbers, texts, nothing) into a column, and to merge the       *)
(* result with another such column.                                        *)
(***************************************************************************)
EXTENDS Order
CONSTANTS MaxLen, MaxBatches

Alpha == { <<"1">>, <<"2">>, <<"3">>, <<"x">> }
Batches == UNION {[1..n -> Alpha] : n \in 0..MaxLen}

VARIABLES a, all, k, prev
vars == <<a, all, k, prev>>
Feed(o, b) == IF o.o = "random" THEN o ELSE Combine(o, BatchOrder(b, o.t))
Init == a = NoOrder /\ all = <<>> /\ k = 0 /\ prev = NoOrder
Next == /\ k < MaxBatches /\ k' = k + 1
        /\ \E b \in Batches : a' = Feed(a, b) /\ all' = all \o b
        /\ prev' = a

Seen == {all[i] : i \in 1..Len(all)}
Direct == BatchOrder(all, 0)
\* one batch: the order is that of its sequence
SingleBatch == k = 1 => a.o = Direct.o
RandomFinal == prev.o = "random" => a.o = "random"
\* batches which each continue where the last one ended give the order of the
\* whole sequence: what is sorted as a whole is never called random
Monotone == (Direct.o \in {"ascending", "descending"} /\ Cardinality(Seen) = Len(all)) => a.o \in {Direct.o, "constant value"}
\* merging is symmetric in the order it finds
Symmetric == \A b \in Batches : LET o == BatchOrder(b, 0) IN Combine(a, o).o = Combine(o, a).o
=============================================================================
