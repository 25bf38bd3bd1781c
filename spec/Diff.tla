-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* What comparing two things yields, by the kind of thing.                 *)
(*   <<5,0>>  unchanged      <<1,x>>  the number x                         *)
(* Sets and counts: [same, a, both, b], a being what only the first has.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SAME == <<5, 0>>
Elems(x) == {x[i] : i \in 1..Len(x)}
NumDiff(d, x, y) == d = (IF x = y THEN SAME ELSE <<1, x - y>>)
\* x/n - y/m, given times n m
RatioDiff(d, x, n, y, m) == d = (IF x * m = y * n THEN SAME ELSE <<1, x * m - y * n>>)
StrDiff(d, x, y) == d = (IF x = y THEN <<"unchanged">> ELSE <<x, y>>)

SetDiff(d, A, B) ==
  IF A = B THEN d.same = 1
  ELSE d.same = 0 /\ Elems(d.a) = A \ B /\ Elems(d.b) = B \ A /\ Elems(d.both) = A \cap B
       /\ Len(d.a) = Cardinality(A \ B) /\ Len(d.b) = Cardinality(B \ A) /\ Len(d.both) = Cardinality(A \cap B)
Pairs(b) == {<<x, b[x]>> : x \in DOMAIN b}
\* counts: what only one side has, and the differences of what both have
BagDiff(d, A, B) ==
  IF d.same = 1 THEN A = B
  ELSE /\ DOMAIN A \cup DOMAIN B # {}
       /\ Elems(d.a) = {x \in Pairs(A) : x[1] \notin DOMAIN B}
       /\ Elems(d.b) = {x \in Pairs(B) : x[1] \notin DOMAIN A}
       /\ Elems(d.both) = {<<x, A[x] - B[x]>> : x \in DOMAIN A \cap DOMAIN B}

\* a figure that is reported for both (a, b, in ten-thousandths): the
\* difference of the reports (<<0,0>>: not a number)
Agrees(i) ==
  IF i.a[1] # 1 \/ i.b[1] # 1 THEN i.d[1] # 1 /\ i.d # SAME
  ELSE IF i.d = SAME THEN i.a[2] - i.b[2] \in (0 - 1)..1
  ELSE i.d[1] = 1 /\ (i.d[2] - (i.a[2] - i.b[2])) \in (0 - 2)..2
\* matrices: entry by entry, entries that are not numbers apart
MatAgrees(m) ==
  /\ m.shape = m.want
  /\ \A k \in 1..Len(m.e) : LET i == m.e[k] IN
       IF i.a[1] # 1 \/ i.b[1] # 1 THEN i.d[1] # 1 ELSE Agrees(i)
=============================================================================
