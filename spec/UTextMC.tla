------------------------------- MODULE UTextMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the text profile specification over all short       *)
(* histories on a tiny language, with the implementation's way of keeping  *)
(* counts (bags joined, then folded and filtered) next to the definition.  *)
(***************************************************************************)
EXTENDS UText
CONSTANTS MaxOps
VARIABLES st, inc, n
vars == <<st, inc, n>>
Slots == 1..2
Lines == { <<"C","a","t"," ","c","a","t">>, <<"(","t","h","e",")"," ","d">>, <<" ">>, <<>>, <<"t","h","e","-">> }
Presets == {"plain", "fold", "nostop", "own", "ownf", "words"}
Data == {<<a>> : a \in Lines} \cup {<< <<"d">>, <<"t","h","e">> >>}

\* incremental bags: what an implementation can keep without the lines
BagAdd(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
   (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
Only(b, stop) == [x \in {w \in DOMAIN b : Lower(w) \notin stop} |-> b[x]]
Keep(b, p) == Only(IF p.cs THEN b ELSE FoldBag(b), p.stop)

Init == st = [p \in Slots |-> Off] /\ inc = [p \in Slots |-> <<>>] /\ n = 0
Op(o, p, q, r, d, m) == [op |-> o, p |-> p, q |-> q, r |-> r, data |-> d, m |-> m, form |-> "list"]
Bagged(d, p) == WordBag([p EXCEPT !.lines = d])
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E p \in Slots, d \in Data, m \in Presets :
                LET op == Op("new", p, 0, 0, d, m) IN
                /\ st' = Step(st, op)
                /\ inc' = [inc EXCEPT ![p] = Bagged(d, Fresh(op))]
           \/ \E p \in Slots, d \in Data :
                /\ st[p].on
                /\ st' = Step(st, Op("update", p, 0, 0, d, ""))
                /\ inc' = [inc EXCEPT ![p] = BagAdd(@, Bagged(d, st[p]))]
           \/ \E p, q, r \in Slots :
                /\ st[p].on /\ st[q].on
                /\ LET s == Plus(st[p], st[q]) IN
                   /\ st' = Step(st, Op("merge", p, q, r, <<>>, ""))
                   /\ inc' = [inc EXCEPT ![r] = Keep(BagAdd(inc[p], inc[q]), s)]

IncrementalIsDirect == \A p \in Slots : st[p].on => inc[p] = WordBag(st[p])
Lengths == \A p \in Slots : st[p].on => EmptyLines(st[p]) <= Len(st[p].lines)
MergeAssoc == \A p, q \in Slots : (st[p].on /\ st[q].on) =>
   LET l == Plus(Plus(st[p], st[q]), st[p]) r == Plus(st[p], Plus(st[q], st[p])) IN
   WordBag(l) = WordBag(r) /\ CharBag(l) = CharBag(r)
\* folding letter case never loses an occurrence
FoldKeeps == \A p \in Slots : st[p].on =>
   FoldSet(LAMBDA w, a : a + FoldBag(WordBag(st[p]))[w], 0, DOMAIN FoldBag(WordBag(st[p])))
   = FoldSet(LAMBDA w, a : a + WordBag(st[p])[w], 0, DOMAIN WordBag(st[p]))
=============================================================================
