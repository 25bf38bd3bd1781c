------------------------------ MODULE ColumnMC ------------------------------
(* Exhaustive check of the algebra behind batching and merging: every pair  *)
(* of cell sequences up to MaxLen over a small alphabet.                     *)
EXTENDS Column
CONSTANT MaxLen
Alpha == { <<>>, <<"n","a","N">>, <<"0">>, <<"7">>, <<"-","3">>, <<"2",".","5">>,
           <<"a","B">>, <<"2","0","2","0","-","0","1","-","0","2">> }
VARIABLES x, y
vars == <<x, y>>
Init == x = <<>> /\ y = <<>>
\* either operand receives one more cell
Next == \/ /\ Len(x) < MaxLen /\ \E c \in Alpha : x' = Append(x, c) /\ UNCHANGED y
        \/ /\ Len(y) < MaxLen /\ \E c \in Alpha : y' = Append(y, c) /\ UNCHANGED x
S(s) == Summ(s, DefaultNull)
Concat == S(x \o y) = Join(S(x), S(y))
Identity == Join(S(x), EmptySumm) = S(x) /\ Join(EmptySumm, S(x)) = S(x)
\* associativity is implied for summaries of sequences by Concat; check it on
\* splits of x against y as well
Assoc == \A k \in 0..Len(x) :
           LET a == SubSeq(x, 1, k)  b == SubSeq(x, k + 1, Len(x)) IN
           Join(S(a), Join(S(b), S(y))) = Join(Join(S(a), S(b)), S(y))
\* The reported type can only move towards string as data is added.
Rank(t) == CASE t = "none" -> 0 [] t = "datetime" -> 1 [] t = "int" -> 2
             [] t = "float" -> 3 [] t = "string" -> 4
TypeSound == LET s == S(x \o y) t == DType(s) IN
   /\ (DType(S(x)) = "string" /\ Len(x) > 0) => t = "string"
   /\ (t = "int") => (DType(S(x)) \in {"none", "int"} /\ DType(S(y)) \in {"none", "int"})
Counts == LET s == S(x) IN
   /\ s.v + FoldSet(LAMBDA c, acc : acc + Cardinality(s.null[c]), 0, DOMAIN s.null) = s.n
   /\ FoldSet(LAMBDA c, acc : acc + s.cats[c], 0, DOMAIN s.cats) = s.v
   /\ s.ci <= s.cf /\ s.cf <= s.v
   /\ s.flt.n * s.flt.s2 >= s.flt.s1 * s.flt.s1
=============================================================================
