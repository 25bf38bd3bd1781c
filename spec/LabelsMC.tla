------------------------------ MODULE LabelsMC ------------------------------
(***************************************************************************)
(* The rules of Labels.tla on all short texts: cutting a text into labels, *)
(* words and entities loses and invents nothing, labels of columns do not  *)
(* depend on batching, and similarity of names is what it should be.       *)
(* The text grows by one character at a time; ys holds the texts given up  *)
(* to now.                                                                 *)
(***************************************************************************)
EXTENDS Labels
CONSTANTS MaxLen, MaxTexts
Letters == {"1", "a", "A", "x", " ", "#", "-", "b"}
VARIABLES x, ys
Init == x = <<>> /\ ys = <<>>
Type == Len(x) < MaxLen /\ \E c \in Letters : x' = Append(x, c) /\ UNCHANGED ys
Give == Len(ys) < MaxTexts /\ Len(x) \in 1..2 /\ ys' = Append(ys, x) /\ x' = <<>>
Next == Type \/ Give

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* every character in exactly one stretch or in the background; stretches are maximal
Entities ==
  \A word \in {0, 1} : LET ls == TLCEval(TextLabels(x, word, 75)) rs == TLCEval(Runs(ls)) IN
    /\ Len(ls) = Len(x)
    /\ \A k \in 1..Len(rs) : rs[k][1] < rs[k][2] /\ rs[k][3] > 1 /\ \A i \in (rs[k][1] + 1)..rs[k][2] : ls[i] = rs[k][3]
    /\ \A k \in 1..(Len(rs) - 1) : rs[k][2] <= rs[k + 1][1] /\ (rs[k][2] = rs[k + 1][1] => rs[k][3] # rs[k + 1][3])
    /\ SumSeq([k \in 1..Len(rs) |-> rs[k][2] - rs[k][1]]) = Cardinality({i \in 1..Len(ls) : ls[i] > 1})
\* words carry one label, separators none
WholeWords == HasSep(x) => LET ls == TLCEval(WordLabels(x, 75)) IN
  \A i \in 1..Len(x) : IF IsSep(x, i) THEN ls[i] = 1 ELSE \A j \in WordOf(x, i) : ls[j] = ls[i]
Counts == LET e == LineEntities(x) IN Sum5(e.chars) = Len(x) /\ Sum5(e.post) = Len(x) /\ Sum5(e.words) <= Len(x)
Cells == LET s == CellLabels(x) IN
  /\ (s = {}) <=> (Counted(x) = 0)
  /\ \A k \in s : k \in 1..4 /\ \A j \in 1..4 : Count(x, j) <= Count(x, k)
  /\ Cardinality(s) > 1 => 1 \notin s
  /\ \A k \in 1..4 : 2 * Count(x, k) > Counted(x) => s = {k}
\* what a pattern marks is made of matches
Marks == \A p \in 1..Len(Pats), ic \in {0, 1}, enc \in {0, 1} :
  LET s == Covered(Pats[p], x, 1, ic, enc) IN
  /\ s \subseteq 1..Len(x)
  /\ \A i \in s : \E a \in s : a <= i /\ LET e == Match(Pats[p], x, a, ic, enc) IN e >= i /\ (a..e) \subseteq s
  /\ (\E a \in 1..Len(x) : Match(Pats[p], x, a, ic, enc) # 0) => s # {}
  /\ (ic = 0 => Cardinality(s) <= Len(x))
Shares == LET v == Votes(<< <<1, 4>>, <<2>>, <<3, 6>> >>, x, 1, 0) IN
  SumSeq([k \in 1..4 |-> Share(v, k - 1)]) = 6 * Len(x)
Batching == \A c \in 0..Len(ys) :
  /\ Together(CellsLabels(SubSeq(ys, 1, c)), CellsLabels(SubSeq(ys, c + 1, Len(ys)))) = CellsLabels(ys)
  /\ CellsLabels(SubSeq(ys, c + 1, Len(ys)) \o SubSeq(ys, 1, c)) = CellsLabels(ys)
OneLabel == LET c == CellsLabels(ys) IN
  /\ (Len(ys) > 0 /\ Total(c) > 0) => \E k \in 1..4 : c.votes[k] = MostVotes(c) /\ (Cardinality({j \in 1..4 : 5 * (MostVotes(c) - c.votes[j]) <= Total(c)}) = 1 => RightLabel(c, <<k>>))
  /\ Total(c) <= 3 * c.n /\ \A k \in 1..4 : c.conf[k] <= 60 * c.n
Name(s) == [i \in 1..Len(s) |-> CASE s[i] = "1" -> "m" [] s[i] = "#" -> "n" [] s[i] = "-" -> "_" [] OTHER -> s[i]]
Similar == \A i \in 1..Len(ys) :
  LET a == Name(ys[i]) IN
    /\ \A k \in 1..Len(ys) : LET b == Name(ys[k]) IN
         Sim(a, b) = Sim(b, a) /\ Sim(a, b)[1] <= Sim(a, b)[2] /\ (Sim(a, b)[1] = Sim(a, b)[2] <=> Sorted(a) = Sorted(b))
=============================================================================
