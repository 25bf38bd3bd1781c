------------------------------ MODULE LabelsGen ------------------------------
(***************************************************************************)
(* Samples behaviours of labelers and of profiles that use them (one per   *)
(* seed), printed as JSON.                                                 *)
(***************************************************************************)
EXTENDS Labels, Rand, Json
CONSTANTS SeedLo, SeedHi, Flavour, NOps
VARIABLES seed, plan, on, ops, rng, done

Words == << <<"1","2">>, <<"1","2","3">>, <<"a","b">>, <<"A","B">>, <<"1">>, <<"a">>, <<"A">>, <<"-">>, <<"#">>, <<"#","#">>,
            <<"1","2","3","a">>, <<"a","1","2","3">>, <<"1","2","a","b">>, <<"a","b","c","1">>, <<"A","B","C","1","2","3","a">>,
            <<"a","-","1">>, <<"1","2","3","4","5","6","7","8","9">>, <<"a","b","c","a","b","c","a">>, <<"A","B","#","C">>, <<"-","-","-">>,
            <<"1","a">>, <<"a","b","1","2">>, <<"A","b","C">>, <<"1","2","3","4","-">>, <<"a","a","a","1","1">> >>
Gaps == << <<" ">>, <<" ">>, <<",">>, <<" "," ">>, <<";">>, <<":", " ">>, <<".">> >>
RECURSIVE Sentence(_, _)
Sentence(r, k) == IF k = 0 THEN <<>> ELSE RPick(RSub(r, 1), Words) \o RPick(RSub(r, 2), Gaps) \o Sentence(RSub(r, 3), k - 1)
Texts(r, n) ==
  [i \in 1..n |-> LET q == RSub(r, i) IN
     IF RChance(RSub(q, 1), 10) THEN <<>>
     ELSE (IF RChance(RSub(q, 2), 15) THEN <<" ">> ELSE <<>>) \o Sentence(RSub(q, 3), RPick(RSub(q, 4), <<0, 0, 1, 1, 2, 3, 6>>))
          \o (IF RChance(RSub(q, 5), 85) THEN RPick(RSub(q, 6), Words) ELSE <<>>)]
\* cells with a single most frequent label, at most six characters besides padding
Plain == << <<"1","2">>, <<"1">>, <<"a","b","1">>, <<"A","B">>, <<"A">>, <<"a">>, <<"b","1","c">>, <<"#","1">>, <<"#">>, <<"#","#">>, <<"x">>,
            <<"x","x","1">>, <<"a","b","c","A","1">>, <<"A","B","C","1","a","b">>, <<"1","2","3","A","a">>, <<"x",".","y","1">>, <<"1","#","2">> >>
Missing == << <<>>, <<"n","a","n">>, <<" ">>, <<"N","o","n","e">>, <<"-","-">> >>
RegexTexts(r, n) ==
  LET alpha == <<"0", "1", "7", "a", "b", "c", "A", "B", "-", " ", ",", "x", "1", "a", "b">> IN
  [i \in 1..n |-> LET q == RSub(r, i) IN [k \in 1..RPick(RSub(q, 1), <<1, 2, 3, 5, 8, 12>>) |-> RPick(RSub(q, 1 + k), alpha)]]
Names == << <<"s","s","n">>, <<"s","s","n","_","i","d">>, <<"S","S","N">>, <<"z","i","p">>, <<"z","i","p"," ","c","o","d","e">>,
            <<"C","o","d","e"," ","z","i","p">>, <<"z","i","p","c","o","d","e">>, <<"n","a","m","e">>, <<"f","i","r","s","t"," ","n","a","m","e">>,
            <<"n","a","m","e","s">>, <<"l","a","s","t","_","n","a","m","e">>, <<"i","d">>, <<"i","d","s">>, <<"p","h","o","n","e">>,
            <<"p","h","o","n","e","_","n","o">>, <<"q">>, <<"z","i","p","s">>, <<"g","a","m","e">> >>

Kinds == CASE Flavour = "label" -> <<"text", "text", "text", "cells", "cells", "cells", "regex", "sregex", "names">>
           [] Flavour = "labelcol" -> <<"column">> [] Flavour = "labeltext" -> <<"lines">>
Par0 == [ml |-> 20, fs |-> 0, sep |-> 0, amax |-> 0, word |-> 0, ner |-> 0, pct |-> 75, ic |-> 1, enc |-> 0, agg |-> "split",
         order |-> <<0, 1, 2, 3>>, pats |-> << <<1>>, <<2>>, <<3>> >>, tp |-> <<>>, fp |-> <<>>, pos |-> 80, neg |-> 90, ms |-> 0]
\* the parameters that matter for a kind of labeler, drawn anew
Draw(r, k, old) ==
  LET ml == RPick(RSub(r, 1), <<6, 7, 8, 10, 13, 20, 40, 200>>)
      pat(i) == [n \in 1..RIn(RSub(r, 30 + i), 0, 2) |-> RIn(RSub(r, 40 + 3 * i + n), 1, Len(Pats))]
      some(q, n) == [i \in 1..n |-> RPick(RSub(q, i), Names)] IN
  CASE k \in {"text", "cells"} ->
         [old EXCEPT !.ml = ml, !.fs = IF k = "cells" THEN 10 ELSE RPick(RSub(r, 2), <<0, 0, 5, 10, 3>>),
            !.sep = RPick(RSub(r, 3), <<0, 1, 2>>), !.amax = RVal(RSub(r, 4), 2), !.word = RVal(RSub(r, 5), 2),
            !.ner = RVal(RSub(r, 6), 2), !.pct = RPick(RSub(r, 7), <<75, 75, 60, 100>>)]
    [] k \in {"regex", "sregex"} ->
         [old EXCEPT !.ic = RVal(RSub(r, 1), 2), !.enc = RVal(RSub(r, 2), 2), !.agg = RPick(RSub(r, 3), <<"split", "priority", "random", "priority">>),
            !.order = RShuffle(RSub(r, 5), <<0, 1, 2, 3>>), !.pats = << pat(1), pat(2), pat(3) >>]
    [] k = "names" ->
         [old EXCEPT !.tp = some(RSub(r, 11), RIn(RSub(r, 1), 1, 4)), !.fp = IF RChance(RSub(r, 2), 40) THEN <<>> ELSE some(RSub(r, 12), RIn(RSub(r, 3), 1, 3)),
            !.pos = RPick(RSub(r, 4), <<50, 70, 80, 90, 99>>), !.neg = RPick(RSub(r, 5), <<60, 80, 90, 100>>)]
    [] OTHER -> [old EXCEPT !.ms = RPick(RSub(r, 1), <<0, 0, 2, 3>>)]

Zero == [op |-> "", p |-> 0, q |-> 0, r |-> 0, data |-> <<>>, spans |-> <<>>, bs |-> 32, rep |-> 1, m |-> "", form |-> "list", par |-> plan.par]
Listed(S) == SetToSortSeq(S, <)
Slots == 1..4
Free == IF on = Slots THEN 4 ELSE Min(Slots \ on)

\* --- labelers
Data(r) ==
  LET n == RPick(RSub(r, 1), <<1, 2, 3, 4, 6, 9>>) IN
  CASE plan.kind = "text" -> Texts(RSub(r, 2), n)
    [] plan.kind = "cells" -> [i \in 1..n |-> IF RChance(RSub(r, 20 + i), 12) THEN <<>> ELSE RPick(RSub(r, 40 + i), Words \o Plain)
                                   \o (IF RChance(RSub(r, 60 + i), 25) THEN RPick(RSub(r, 80 + i), Gaps) \o RPick(RSub(r, 100 + i), Words) ELSE <<>>)]
    [] plan.kind \in {"regex", "sregex"} -> RegexTexts(RSub(r, 2), n)
    [] plan.kind = "names" -> [i \in 1..n |-> RPick(RSub(r, 20 + i), Names)]
\* labelled stretches for training: for each text none, or some [from, to) with a label
SpansFor(r, xs) ==
  [i \in 1..Len(xs) |-> LET q == RSub(r, i) n == Len(xs[i]) a == RVal(RSub(q, 1), n + 1) b == RIn(RSub(q, 2), a, n) c == RIn(RSub(q, 3), b, n) d == RIn(RSub(q, 4), c, n) IN
     IF plan.kind = "cells" THEN << <<0, n, RIn(RSub(q, 5), 1, 4)>> >>
     ELSE IF RChance(RSub(q, 6), 25) THEN <<>> ELSE << <<a, b, RIn(RSub(q, 5), 1, 4)>>, <<c, d, RIn(RSub(q, 7), 1, 4)>> >>]
MkPipe(r) ==
  LET o == IF ops = <<>> THEN "set" ELSE RPick(RSub(r, 1), <<"predict", "predict", "predict", "predict", "set", "resave", "train", "label">>)
      d == Data(RSub(r, 2))
      bs == RPick(RSub(r, 3), <<1, 2, 3, 32, 32>>) IN
  IF o = "set" THEN [Zero EXCEPT !.op = "set", !.par = Draw(RSub(r, 4), plan.kind, plan.par)]
  ELSE IF o = "resave" THEN [Zero EXCEPT !.op = "resave"]
  ELSE IF o = "label" /\ plan.kind \in {"text", "cells"} THEN
    [Zero EXCEPT !.op = "label", !.m = RPick(RSub(r, 5), <<"N1", "N2", "N3", "NUM">>), !.form = RPick(RSub(r, 6), <<"", "", "NUM", "N1", "LOW">>)]
  ELSE IF o = "train" /\ plan.kind \in {"text", "cells"} THEN [Zero EXCEPT !.op = "train", !.data = d, !.spans = SpansFor(RSub(r, 5), d), !.bs = bs]
  ELSE [Zero EXCEPT !.op = "predict", !.data = d, !.bs = bs, !.form = RPick(RSub(r, 6), <<"list", "series", "array", "frame">>),
          !.rep = IF plan.kind \in {"regex", "sregex"} /\ RChance(RSub(r, 7), 15) THEN RPick(RSub(r, 8), <<30, 60>>) ELSE 1]

\* --- profiles
Batch(r) ==
  LET n == RIn(RSub(r, 1), 1, 5) IN
  IF plan.kind = "lines" THEN Texts(RSub(r, 2), n)
  ELSE [j \in 1..2 |->
          IF RChance(RSub(r, 10 + j), 15) THEN [i \in 1..n |-> RPick(RSub(r, 20 + i), Missing)]
          ELSE LET one == RPick(RSub(r, 30 + j), Plain) IN
               [i \in 1..n |-> IF RChance(RSub(r, 40 + 7 * i + j), 15) THEN RPick(RSub(r, 90 + i), Missing)
                               ELSE IF plan.par.ms > 0 \/ RChance(RSub(r, 8), 30) THEN one ELSE RPick(RSub(r, 140 + 7 * i + j), Plain)]]
APick(r) == RPick(r, Listed(on))
MkProf(r) ==
  LET o == IF on = {} THEN "new" ELSE RPick(RSub(r, 1), <<"update", "update", "merge", "merge", "new", "reload", "diff">>) IN
  CASE o = "new" -> [Zero EXCEPT !.op = o, !.p = Free, !.data = Batch(RSub(r, 2))]
    [] o = "update" -> [Zero EXCEPT !.op = o, !.p = APick(RSub(r, 3)), !.data = Batch(RSub(r, 2))]
    [] o = "diff" -> [Zero EXCEPT !.op = o, !.p = APick(RSub(r, 3)), !.q = APick(RSub(r, 4))]
    [] o = "merge" -> [Zero EXCEPT !.op = o, !.p = APick(RSub(r, 3)), !.q = APick(RSub(r, 4)), !.r = Free]
    [] o = "reload" -> [Zero EXCEPT !.op = o, !.p = APick(RSub(r, 3)), !.r = Free, !.m = IF plan.kind = "column" /\ RChance(RSub(r, 5), 50) THEN "json" ELSE "pickle"]
MkOp(r) == IF plan.kind \in {"column", "lines"} THEN MkProf(r) ELSE MkPipe(r)

Init == /\ seed \in SeedLo..SeedHi
        /\ rng = RNext(RNext(RNext(RSeed(seed))))
        /\ LET k == RPick(RSub(rng, 3), Kinds) IN plan = [kind |-> k, par |-> Draw(RSub(rng, 4), k, Par0)]
        /\ on = {} /\ ops = <<>> /\ done = FALSE
Do == /\ Len(ops) < NOps
      /\ LET op == MkOp(RSub(rng, 7)) IN
           /\ ops' = Append(ops, op)
           /\ on' = on \cup ({op.p, op.r} \ {0})
           /\ plan' = [plan EXCEPT !.par = op.par]
      /\ rng' = RSub(rng, 9) /\ UNCHANGED <<seed, done>>
Out == /\ Len(ops) = NOps /\ ~done /\ PrintT(ToJson([seed |-> seed, kind |-> plan.kind, ops |-> ops]))
       /\ done' = TRUE /\ UNCHANGED <<seed, plan, on, ops, rng>>
Next == Do \/ Out
View == <<seed, Len(ops), done>>
=============================================================================
