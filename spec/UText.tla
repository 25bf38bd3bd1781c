-------------------------------- MODULE UText --------------------------------
(***************************************************************************)
(* The unstructured (free text) profile as a state machine.                *)
(*                                                                         *)
(* A profile is known by the lines it has been given and by its options:   *)
(*   cs    letter case matters for words                                   *)
(*   stop  words that are left out (compared in lower case)                *)
(*   tkc, tkw  how many characters / words are listed with counts (0: all) *)
(*   en    which of "vocab" and "words" are computed                       *)
(*   size  the size of all data given, k, mt  sample sizes (Sampling.tla)  *)
(*   name  the column name the first data came with                        *)
(* What it reports is defined below from the lines alone.                  *)
(***************************************************************************)
EXTENDS Text, FiniteSetsExt, SequencesExt

Off == [on |-> FALSE, lines |-> <<>>, cs |-> TRUE, stop |-> {}, tkc |-> 0, tkw |-> 0, en |-> {}, name |-> "", size |-> 0, k |-> 0, mt |-> 0, via |-> {}]

\* "~" stands for a letter whose encoding takes two bytes
Blank == {" ", "\t"}
Punct == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":",
          ";", "<", "=", ">", "?", "@", "[", "]", "^", "_", "{", "|", "}"}
Bytes(l) == Len(l) + Cardinality({i \in 1..Len(l) : l[i] = "~"})

IsEmptyLine(l) == \A i \in 1..Len(l) : l[i] \in Blank

\* the words of a line: maximal runs of non-blanks without the punctuation around them
RECURSIVE Strip(_)
Strip(w) == IF w = <<>> THEN w
            ELSE IF w[1] \in Punct THEN Strip(Tail(w))
            ELSE IF w[Len(w)] \in Punct THEN Strip(SubSeq(w, 1, Len(w) - 1)) ELSE w
Starts(l) == {i \in 1..Len(l) : l[i] \notin Blank /\ (i = 1 \/ l[i - 1] \in Blank)}
EndOf(l, i) == Min({k \in i..Len(l) : k = Len(l) \/ l[k + 1] \in Blank})
Tokens(l) == LET s == SetToSortSeq(Starts(l), <) IN [k \in 1..Len(s) |-> Strip(SubSeq(l, s[k], EndOf(l, s[k])))]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
TallyOf(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

WordBag(p) ==
  IF "words" \notin p.en THEN <<>> ELSE
  LET ws == Flat([i \in 1..Len(p.lines) |-> Tokens(p.lines[i])])
      keep == SelectSeq(ws, LAMBDA w : w # <<>> /\ Lower(w) \notin p.stop)
  IN TallyOf(IF p.cs THEN keep ELSE [i \in 1..Len(keep) |-> Lower(keep[i])])
CharBag(p) ==
  IF "vocab" \notin p.en THEN <<>> ELSE
  TallyOf(Flat(SelectSeq(p.lines, LAMBDA l : ~IsEmptyLine(l))))

EmptyLines(p) == Cardinality({i \in 1..Len(p.lines) : IsEmptyLine(p.lines[i])})
RECURSIVE Size(_)
Size(ls) == IF ls = <<>> THEN 0 ELSE Bytes(ls[1]) + Size(Tail(ls))

\* the k most frequent entries of a bag (all if k = 0), most frequent first
Top(bag, k0, shown) ==
  LET n == Cardinality(DOMAIN bag)
      k == IF k0 = 0 \/ k0 > n THEN n ELSE k0
      names == {shown[i][1] : i \in 1..Len(shown)}
  IN /\ Len(shown) = k /\ Cardinality(names) = k
     /\ \A i \in 1..k : shown[i][1] \in DOMAIN bag /\ bag[shown[i][1]] = shown[i][2]
     /\ \A i \in 1..(k - 1) : shown[i][2] >= shown[i + 1][2]
     /\ \A x \in DOMAIN bag \ names : \A i \in 1..k : bag[x] <= shown[i][2]

--------------------------------------------------------------------------
\* Options presets.  (Of the built-in stop words only those in the sampled
\* language are listed.)
KnownStop == { <<"t","h","e">>, <<"a">>, <<"i","s">>, <<"d","o","n","'","t">>, <<"a","n","d">>, <<"t","o">>, <<"i","t","'","s">> }
Preset(o) ==
  CASE o = "plain"  -> [cs |-> TRUE,  stop |-> KnownStop, tkc |-> 0, tkw |-> 0, en |-> {"vocab", "words"}]
    [] o = "fold"   -> [cs |-> FALSE, stop |-> KnownStop, tkc |-> 0, tkw |-> 0, en |-> {"vocab", "words"}]
    [] o = "nostop" -> [cs |-> TRUE,  stop |-> {},        tkc |-> 0, tkw |-> 0, en |-> {"vocab", "words"}]
    [] o = "own"    -> [cs |-> TRUE,  stop |-> {<<"c","a","t">>, <<"t","h","e">>}, tkc |-> 4, tkw |-> 3, en |-> {"vocab", "words"}]
    [] o = "ownf"   -> [cs |-> FALSE, stop |-> {<<"c","a","t">>}, tkc |-> 0, tkw |-> 2, en |-> {"vocab", "words"}]
    [] o = "topk"   -> [cs |-> TRUE,  stop |-> KnownStop, tkc |-> 2, tkw |-> 2, en |-> {"vocab", "words"}]
    [] o = "chars"  -> [cs |-> TRUE,  stop |-> KnownStop, tkc |-> 0, tkw |-> 0, en |-> {"vocab"}]
    [] o = "words"  -> [cs |-> FALSE, stop |-> {},        tkc |-> 3, tkw |-> 0, en |-> {"words"}]

Larger(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > b THEN a ELSE b
Plus(p, q) ==
  [on |-> TRUE, lines |-> p.lines \o q.lines, cs |-> p.cs /\ q.cs,
   stop |-> p.stop \cup q.stop, tkc |-> Larger(p.tkc, q.tkc), tkw |-> Larger(p.tkw, q.tkw),
   size |-> p.size + q.size, k |-> p.k, mt |-> p.mt,
   en |-> p.en \cap q.en, name |-> p.name, via |-> p.via \cup q.via \cup {"merge"}]
\* a column of a table brings its name along
NameOf(form) == IF form \in {"frame", "named"} THEN "t" ELSE ""
\* op.take: the positions of the lines looked at (<<>>: all of them)
Field(op, f, x) == IF f \in DOMAIN op THEN op[f] ELSE x
Looked(op) == LET t == Field(op, "take", <<>>) IN
  IF t = <<>> THEN op.data ELSE LET ks == SetToSortSeq(t[1], <) IN [i \in 1..Len(ks) |-> op.data[ks[i]]]
Fresh(op) == LET o == Preset(op.m) IN
  [on |-> TRUE, lines |-> Looked(op), size |-> Size(op.data), k |-> Field(op, "k", 0), mt |-> Field(op, "mt", 0), cs |-> o.cs, stop |-> o.stop, tkc |-> o.tkc, tkw |-> o.tkw,
   en |-> o.en, name |-> NameOf(op.form), via |-> {"new"}]

\* The one operation that is refused: merging differently named data.
Accepts(st, op) == op.op = "merge" => st[op.p].name = st[op.q].name
Step(st, op) ==
  IF ~Accepts(st, op) THEN st ELSE
  CASE op.op = "new"    -> [st EXCEPT ![op.p] = Fresh(op)]
    [] op.op = "update" -> [st EXCEPT ![op.p] = [@ EXCEPT !.lines = @ \o Looked(op), !.size = @ + Size(op.data), !.via = @ \cup {"update"}]]
    [] op.op = "merge"  -> [st EXCEPT ![op.r] = Plus(st[op.p], st[op.q])]
    [] op.op = "reload" -> [st EXCEPT ![op.r] = [st[op.p] EXCEPT !.via = @ \cup {"pickle"}]]
    [] OTHER            -> st
Target(op) == CASE op.op \in {"new", "update"} -> op.p
                [] op.op \in {"merge", "reload"} -> op.r
                [] OTHER -> 0

--------------------------------------------------------------------------
(***************************************************************************)
(* Comparing two text profiles.  Words are compared without letter case    *)
(* if one of the two profiles ignores it.                                  *)
(***************************************************************************)
FoldBag(b) == LET ks == {Lower(w) : w \in DOMAIN b} IN
  [x \in ks |-> FoldSet(LAMBDA w, acc : acc + b[w], 0, {w \in DOMAIN b : Lower(w) = x})]
WordsFor(p, q) == LET b == WordBag(p) IN IF p.cs /\ ~q.cs THEN FoldBag(b) ELSE b
=============================================================================
