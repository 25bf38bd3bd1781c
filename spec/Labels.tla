------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Labelling data.  A labeler is a pipeline: a preprocessor cuts the given *)
(* texts into samples of bounded length (joining short ones if asked to),  *)
(* a model labels every character of every sample, and a postprocessor     *)
(* puts the labels back together.  Whatever the cutting and joining, every *)
(* character of every text has to come out with the label the model gives  *)
(* to it, so the pipeline is specified without samples: the model here     *)
(* labels a character by what it is, and the labels of texts, words, cells *)
(* and columns are defined from that.                                      *)
(***************************************************************************)
EXTENDS Text, FiniteSetsExt, SequencesExt

\* labels of the character models: 0 padding, 1 background, 2 digits, 3 lower, 4 upper case
LName == <<"UNKNOWN", "NUM", "LOW", "UPP">>
Lowers == {"a", "b", "c"}
Uppers == {"A", "B", "C"}
LabelOf(c) == IF IsDigit(c) THEN 2 ELSE IF c \in Lowers THEN 3 ELSE IF c \in Uppers THEN 4
              ELSE IF c = "#" THEN 0 ELSE 1
CharLabels(x) == [i \in 1..Len(x) |-> LabelOf(x[i])]

(***************************************************************************)
(* Words and entities                                                      *)
(***************************************************************************)
Seps == {" ", ",", ";", ".", ":"}
IsSep(x, i) == x[i] \in Seps
HasSep(x) == \E i \in 1..Len(x) : IsSep(x, i)
\* the word around position i
WordOf(x, i) == LET a == Max({k \in 0..(i - 1) : k = 0 \/ IsSep(x, k)})
                    b == Min({k \in (i + 1)..(Len(x) + 1) : k = Len(x) + 1 \/ IsSep(x, k)}) IN (a + 1)..(b - 1)
\* the label that at least pct percent of the characters of a word (and more than one) have
WordLabel(x, w, pct) ==
  LET n(k) == Cardinality({i \in w : LabelOf(x[i]) = k})
      good == {k \in 0..4 : n(k) > 1 /\ 100 * n(k) >= pct * Cardinality(w)} IN
  IF good = {} THEN 1 ELSE CHOOSE k \in good : \A j \in good : n(k) >= n(j)
WordLabels(x, pct) ==
  IF ~HasSep(x) THEN CharLabels(x)          \* (a text of one word is left alone)
  ELSE [i \in 1..Len(x) |-> IF IsSep(x, i) THEN 1 ELSE WordLabel(x, WordOf(x, i), pct)]
\* entities: maximal runs of one label other than background and padding; from, to, label
Runs(ls) ==
  LET starts == {i \in 1..Len(ls) : ls[i] > 1 /\ (i = 1 \/ ls[i - 1] # ls[i])}
      stop(i) == Min({k \in i..Len(ls) : k = Len(ls) \/ ls[k + 1] # ls[i]})
      s == TLCEval(SetToSortSeq(starts, <)) IN
  [k \in 1..Len(s) |-> <<s[k] - 1, stop(s[k]), ls[s[k]]>>]
TextLabels(x, word, pct) == IF word = 1 THEN WordLabels(x, pct) ELSE CharLabels(x)

(***************************************************************************)
(* Cells: the most frequent label of the characters, padding aside; of     *)
(* several, any that is not the background.                                *)
(***************************************************************************)
Count(x, k) == Cardinality({i \in 1..Len(x) : LabelOf(x[i]) = k})
Counted(x) == Len(x) - Count(x, 0)
CellLabels(x) ==
  LET top == {k \in 1..4 : Count(x, k) > 0 /\ \A j \in 1..4 : Count(x, j) <= Count(x, k)} IN
  IF Cardinality(top) > 1 THEN top \ {1} ELSE top

(***************************************************************************)
(* Regular expressions: sequences of character classes, each of one        *)
(* character or of one and more.  Matches are looked for from the left and *)
(* do not overlap; enc: not next to letters or digits.                     *)
(***************************************************************************)
Ten == {"0","1","2","3","4","5","6","7","8","9"}
Pats == << << <<Ten, 1>> >>, << <<{"a"}, 0>>, <<{"b"}, 0>> >>, << <<Lowers, 1>>, <<Ten, 0>> >>,
           << <<{"-"}, 0>>, <<Ten, 1>> >>, << <<{"A", "B"}, 1>> >>, << <<{"b"}, 0>> >>, << <<Ten, 0>>, <<Ten, 0>> >> >>
InClass(c, s, ic) == c \in s \/ (ic = 1 /\ \E d \in s : LowerCh(d) = LowerCh(c))
\* the end of a match beginning at i (0: there is none)
RECURSIVE Ends(_, _, _, _)
Ends(p, x, i, ic) ==
  IF p = <<>> THEN i - 1
  ELSE IF i > Len(x) \/ ~InClass(x[i], p[1][1], ic) THEN 0
  ELSE LET j == IF p[1][2] = 0 THEN i
                ELSE Min({k \in i..Len(x) : k = Len(x) \/ ~InClass(x[k + 1], p[1][1], ic)}) IN
       Ends(Tail(p), x, j + 1, ic)
IsWordCh(c) == IsDigit(c) \/ c \in DOMAIN LowerFcn \/ \E u \in DOMAIN LowerFcn : LowerFcn[u] = c
Match(p, x, i, ic, enc) ==
  LET e == Ends(p, x, i, ic) IN
  IF e = 0 \/ (enc = 1 /\ ((i > 1 /\ IsWordCh(x[i - 1])) \/ (e < Len(x) /\ IsWordCh(x[e + 1])))) THEN 0 ELSE e
RECURSIVE Covered(_, _, _, _, _)
Covered(p, x, i, ic, enc) ==
  IF i > Len(x) THEN {}
  ELSE LET e == Match(p, x, i, ic, enc) IN
       IF e = 0 THEN Covered(p, x, i + 1, ic, enc) ELSE (i..e) \cup Covered(p, x, e + 1, ic, enc)
\* pats[k]: the patterns of label k; the labels of the characters of x (0: background)
Votes(pats, x, ic, enc) ==
  LET cov == TLCEval([k \in 1..Len(pats) |-> UNION {Covered(Pats[pats[k][n]], x, 1, ic, enc) : n \in 1..Len(pats[k])}]) IN
  [i \in 1..Len(x) |-> LET s == {k \in 1..Len(pats) : i \in cov[k]} IN IF s = {} THEN {0} ELSE s]
\* of several labels the first in the given order
FirstOf(order, s) == order[Min({i \in 1..Len(order) : order[i] \in s})]
\* the share of label k in a cell, times 6 * the number of its characters
Share(vs, k) == FoldLeft(LAMBDA a, s : a + (IF k \in s THEN 6 \div Cardinality(s) ELSE 0), 0, vs)

(***************************************************************************)
(* Names of columns: similarity of two names, in percent, is the part of   *)
(* their letters that a longest common subsequence has, words sorted.      *)
(***************************************************************************)
RECURSIVE LcsTo(_, _, _, _)
\* row of the table for the first i letters of a, from that of i - 1
LcsTo(row, ch, b, acc) ==
  IF Len(acc) = Len(b) + 1 THEN acc
  ELSE LET j == Len(acc) IN
       LcsTo(row, ch, b, Append(acc, IF ch = b[j] THEN row[j] + 1 ELSE IF row[j + 1] > acc[j] THEN row[j + 1] ELSE acc[j]))
Lcs(a, b) == LET r == FoldLeft(LAMBDA row, ch : LcsTo(row, ch, b, <<0>>), [j \in 1..(Len(b) + 1) |-> 0], a) IN r[Len(b) + 1]
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o JoinWords(Tail(ws))
Splits(x) == LET st == {i \in 1..Len(x) : x[i] # " " /\ (i = 1 \/ x[i - 1] = " ")}
                 en(i) == Min({k \in i..Len(x) : k = Len(x) \/ x[k + 1] = " "})
                 s == SetToSortSeq(st, <) IN [k \in 1..Len(s) |-> SubSeq(x, s[k], en(s[k]))]
Alphabet == <<"_","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Pos(c) == CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN Pos(a[1]) < Pos(b[1]) ELSE Less(Tail(a), Tail(b))
Sorted(x) == JoinWords(SortSeq(Splits(Lower(x)), Less))
\* similarity as a fraction: twice the common letters, all letters
Sim(x, y) == LET a == Sorted(x) b == Sorted(y) IN <<2 * Lcs(a, b), Len(a) + Len(b)>>
Above(s, pct) == 100 * s[1] > pct * s[2]
At(s, pct) == 100 * s[1] = pct * s[2]
Gt(s, u) == s[1] * u[2] > u[1] * s[2]

(***************************************************************************)
(* A column: its label profile over all cells that are not missing.        *)
(* A cell votes for its label.  (60 is a common multiple of cell lengths.) *)
(***************************************************************************)
NoLabels == [n |-> 0, conf |-> <<0, 0, 0, 0>>, votes |-> <<0, 0, 0, 0>>]
ConfOf(x) == [k \in 1..4 |-> IF Counted(x) = 0 THEN 0 ELSE (60 * Count(x, k)) \div Counted(x)]
OneCell(x, times) ==
  LET v == CellLabels(x) IN
  [n |-> times, conf |-> [k \in 1..4 |-> times * ConfOf(x)[k]], votes |-> [k \in 1..4 |-> IF k \in v THEN times ELSE 0]]
Together(a, b) == [n |-> a.n + b.n, conf |-> [k \in 1..4 |-> a.conf[k] + b.conf[k]], votes |-> [k \in 1..4 |-> a.votes[k] + b.votes[k]]]
CellsLabels(xs) == FoldLeft(LAMBDA a, x : Together(a, OneCell(x, 1)), NoLabels, xs)
\* of a batch of more cells a sample is looked at (ms; 0: all): known here if all are equal
BatchLabels(xs, ms) == IF ms = 0 \/ Len(xs) <= ms THEN CellsLabels(xs) ELSE OneCell(xs[1], ms)
Total(c) == c.votes[1] + c.votes[2] + c.votes[3] + c.votes[4]
MostVotes(c) == Max({c.votes[k] : k \in 1..4})
\* the label of a column: those of at most three that are within a fifth of the first
\* (ls: a list of labels), undetermined if no label has more than 35 percent
Undetermined(c) == Total(c) = 0 \/ 100 * MostVotes(c) < 35 * Total(c)
RightLabel(c, ls) ==
  LET m == MostVotes(c) t == Total(c)
      near == {k \in 1..4 : 5 * (m - c.votes[k]) < t}  edge == {k \in 1..4 : 5 * (m - c.votes[k]) = t}
      least(n) == IF n < 3 THEN n ELSE 3 IN
  /\ ls # <<>> /\ Cardinality({ls[i] : i \in 1..Len(ls)}) = Len(ls)
  /\ Len(ls) >= least(Cardinality(near)) /\ Len(ls) <= least(Cardinality(near \cup edge))
  /\ \A i \in 1..Len(ls) : ls[i] \in near \cup edge
  /\ \A i \in 1..(Len(ls) - 1) : c.votes[ls[i]] >= c.votes[ls[i + 1]]
  /\ \A k \in 1..4 : (\E i \in 1..Len(ls) : c.votes[ls[i]] < c.votes[k]) => \E i \in 1..Len(ls) : ls[i] = k

(***************************************************************************)
(* A text: numbers of characters and words by label                        *)
(***************************************************************************)
NoEntities == [chars |-> <<0, 0, 0, 0, 0>>, post |-> <<0, 0, 0, 0, 0>>, words |-> <<0, 0, 0, 0, 0>>]
\* (index k + 1 is label k; padding counts as background but for the model's own labels)
LineEntities(x) ==
  LET ls == TLCEval(WordLabels(x, 75))
      rs == TLCEval(Runs(ls))
      bgword == {i \in 1..Len(x) : ~IsSep(x, i) /\ i < Len(x) /\ IsSep(x, i + 1) /\ ls[i] \in {0, 1}} IN
  [chars |-> [k \in 1..5 |-> Cardinality({i \in 1..Len(x) : LabelOf(x[i]) = k - 1})],
   post |-> [k \in 1..5 |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN Cardinality({i \in 1..Len(x) : ls[i] \in {0, 1}})
                            ELSE Cardinality({i \in 1..Len(x) : ls[i] = k - 1})],
   words |-> [k \in 1..5 |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN Cardinality(bgword)
                             ELSE Cardinality({i \in 1..Len(rs) : rs[i][3] = k - 1})]]
Plus5(a, b) == [k \in 1..5 |-> a[k] + b[k]]
Sum5(a) == a[1] + a[2] + a[3] + a[4] + a[5]
AllEntities(a, b) == [chars |-> Plus5(a.chars, b.chars), post |-> Plus5(a.post, b.post), words |-> Plus5(a.words, b.words)]
=============================================================================
