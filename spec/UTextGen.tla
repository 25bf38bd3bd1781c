------------------------------ MODULE UTextGen ------------------------------
(***************************************************************************)
(* Samples behaviours of UText.tla (one per seed), printed as JSON.        *)
(***************************************************************************)
EXTENDS UText, Rand, Json
CONSTANTS SeedLo, SeedHi, Flavour, NOps
VARIABLES seed, st, ops, rng, done
NSlots == 4
Slots == 1..NSlots

Toks == << <<"t","h","e">>, <<"T","h","e">>, <<"c","a","t">>, <<"C","a","t">>, <<"C","A","T">>,
           <<"(","c","a","t",")">>, <<"c","a","t",",">>, <<"d","o","g">>, <<"D","o","g","'","s">>,
           <<"d","o","n","'","t">>, <<"D","o","n","'","t","!">>, <<".",".",".">>, <<"-","-">>, <<"'">>,
           <<"4","2">>, <<"4",".","2">>, <<"x","_","y">>, <<"c","a","f","~">>, <<"~">>, <<"a">>, <<"A">>,
           <<"t","h","e","m","e">>, <<"i","s">>, <<"\"","I","t","'","s","\"">>, <<"_","t","o","_">>, <<"Z">>,
           <<"g","o","-","c","a","r","t">>, <<"#","1">>, <<"a","n","d">>, <<"r","e","d",";">> >>
Seps == << <<" ">>, <<" ">>, <<"  ">>, <<" ", " ">>, <<"\t">>, <<" ", "\t">> >>
FixSep(s) == IF s = <<"  ">> THEN <<" ", " ">> ELSE s
RECURSIVE Join(_, _)
Join(r, k) == IF k = 0 THEN <<>> ELSE RPick(r, Toks) \o FixSep(RPick(RNext(r), Seps)) \o Join(RSkip(r, 2), k - 1)
Line(r) ==
  IF RChance(r, 15) THEN RPick(RNext(r), << <<>>, <<" ">>, <<"\t">>, <<" ", " ", " ">>, <<" ", "\t">> >>)
  ELSE (IF RChance(RNext(r), 20) THEN <<" ">> ELSE <<>>) \o Join(RSkip(r, 2), RIn(RSub(r, 5), 0, 4)) \o RPick(RSub(r, 6), Toks)
\* (lines to be sampled begin with a word of their own)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Tag(i) == LET x == 10 * Len(ops) + i IN <<"w", Digits[(x \div 10) + 1], Digits[(x % 10) + 1], " ">>
Batch(r, n) == [i \in 1..n |-> LET l == Line(RSub(r, i)) IN
                  IF Flavour = "textsample" /\ ~IsEmptyLine(l) THEN Tag(i) \o l ELSE l]
MaxB == IF Flavour = "textsample" THEN 8 ELSE 4
SizeOf(r, p) == IF Flavour # "textsample" \/ RChance(r, p) THEN 0 ELSE RIn(RNext(r), 1, 6)

PresetsOf == CASE Flavour = "text" -> <<"plain", "fold", "nostop", "own", "ownf", "topk", "chars", "words">>
               [] Flavour = "textview" -> <<"plain", "own", "chars", "words", "words", "chars">>
               [] Flavour = "textsample" -> <<"nostop">>
               [] Flavour = "textdiff" -> <<"plain", "fold", "nostop", "own", "ownf", "words", "chars">>
OpsOf == CASE Flavour = "text" -> <<"update", "update", "merge", "merge", "new", "reload", "report", "diff">>
           [] Flavour = "textview" -> <<"update", "view", "view", "view", "merge", "new", "reload">>
           [] Flavour = "textsample" -> <<"update", "update", "update", "merge", "new", "reload">>
           [] Flavour = "textdiff" -> <<"update", "diff", "diff", "merge", "new">>
Forms == <<"list", "series", "shifted", "list", "frame", "named", "series", "list">>

Zero == [op |-> "", p |-> 0, q |-> 0, r |-> 0, data |-> <<>>, form |-> "list", m |-> "",
         fmt |-> "", omit |-> <<>>, g |-> 4, rdf |-> 0,
         k |-> 0, mt |-> 0, take |-> <<>>, nv |-> <<>>, ne |-> 0]
On == {p \in Slots : st[p].on}
Listed(S) == SetToSortSeq(S, <)
FreeSlot == IF On = Slots THEN NSlots ELSE Min(Slots \ On)
Form(r, d) == IF Len(d) = 1 /\ d[1] # <<>> /\ RChance(RNext(r), 30) THEN "str" ELSE RPick(r, Forms)
MkNew(r) == LET n == RIn(RSub(r, 50), 1, MaxB) IN
   [Zero EXCEPT !.op = "new", !.p = FreeSlot, !.data = Batch(r, n),
                !.form = Form(RSub(r, 55), Batch(r, n)), !.m = RPick(RSub(r, 56), PresetsOf), !.k = SizeOf(RSub(r, 57), 10), !.mt = SizeOf(RSub(r, 58), 60)]
MkUpdate(r) == LET n == IF RChance(RSub(r, 51), 6) THEN 0 ELSE RIn(RSub(r, 50), 1, MaxB) IN
   [Zero EXCEPT !.op = "update", !.p = RPick(RSub(r, 52), Listed(On)), !.data = Batch(r, n),
                !.k = SizeOf(RSub(r, 57), 70), !.mt = SizeOf(RSub(r, 58), 80),
                !.form = Form(RSub(r, 55), Batch(r, n))]
MkMerge(r) == [Zero EXCEPT !.op = "merge", !.p = RPick(RSub(r, 52), Listed(On)),
                           !.q = RPick(RSub(r, 54), Listed(On)), !.r = FreeSlot]
MkReload(r) == [Zero EXCEPT !.op = "reload", !.p = RPick(RSub(r, 52), Listed(On)), !.r = FreeSlot]
MkLook(r, o) == [Zero EXCEPT !.op = o, !.p = RPick(RSub(r, 52), Listed(On)), !.q = RPick(RSub(r, 54), Listed(On))]
Keys1 == <<"global_stats", "data_stats", "data_stats", "*">>
Keys2 == <<"statistics", "statistics", "*", "times", "empty_line_count", "samples_used">>
Keys3 == <<"vocab", "words", "vocab_count", "word_count", "times", "*", "times">>
Keys4 == <<"vocab", "a", "*", "cat", "words">>
MkView(r) ==
  LET pat(x) == SubSeq(<<RPick(RSub(x, 2), Keys1), RPick(RSub(x, 3), Keys2), RPick(RSub(x, 4), Keys3), RPick(RSub(x, 5), Keys4)>>,
                       1, RPick(RSub(x, 1), <<1, 2, 2, 3, 3, 3, 4, 4>>)) IN
  [Zero EXCEPT !.op = "view", !.p = RPick(RSub(r, 52), Listed(On)),
     !.fmt = RPick(RSub(r, 61), <<"", "pretty", "compact", "serializable", "flat">>),
     !.omit = IF RChance(RSub(r, 62), 40) THEN <<>> ELSE [i \in 1..RIn(RSub(r, 63), 1, 3) |-> pat(RSub(r, 70 + i))],
     !.rdf = IF RChance(RSub(r, 65), 50) THEN 1 ELSE 0]
MkOp(r) ==
  IF On = {} THEN MkNew(r) ELSE
  LET o == RPick(RSub(r, 60), OpsOf) IN
  CASE o = "new" -> MkNew(r) [] o = "update" -> MkUpdate(r)
    [] o \in {"merge", "diff"} -> (IF Cardinality(On) < 2 THEN MkNew(r) ELSE IF o = "merge" THEN MkMerge(r) ELSE MkLook(r, o))
    [] o = "reload" -> MkReload(r) [] o = "view" -> MkView(r) [] OTHER -> MkLook(r, o)

Init == /\ seed \in SeedLo..SeedHi
        /\ rng = RNext(RNext(RNext(RSeed(seed))))
        /\ st = [p \in Slots |-> Off] /\ ops = <<>> /\ done = FALSE
Do == /\ Len(ops) < NOps
      /\ LET op == MkOp(RSub(rng, 7)) IN st' = Step(st, op) /\ ops' = Append(ops, op)
      /\ rng' = RSub(rng, 9) /\ UNCHANGED <<seed, done>>
Out == /\ Len(ops) = NOps /\ ~done /\ PrintT(ToJson([seed |-> seed, sampling |-> IF Flavour = "textsample" THEN 1 ELSE 0, ops |-> ops]))
       /\ done' = TRUE /\ UNCHANGED <<seed, st, ops, rng>>
Next == Do \/ Out
View == <<seed, Len(ops), done>>
=============================================================================
