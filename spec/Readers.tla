------------------------------- MODULE Readers ------------------------------
(***************************************************************************)
(* Readers of data files as a state machine.                               *)
(*                                                                         *)
(* A table is [cols, rows, marks]: column names, rows of cells (sequences  *)
(* of characters), and for every cell what is stored in the file:          *)
(*   "s" text   "i" a whole number   "n" null   "x" nothing (key absent)   *)
(* The module defines how a table is written to a file (the characters of  *)
(* a delimited or JSON file), and what a reader of that file has to return *)
(* in each of its data formats.  "~" stands for a non-ASCII letter.        *)
(***************************************************************************)
EXTENDS Text, FiniteSetsExt, SequencesExt

Has(c, ch) == \E i \in 1..Len(c) : c[i] = ch
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))
RECURSIVE JoinS(_, _)
JoinS(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o sep \o JoinS(Tail(ss), sep)

(***************************************************************************)
(* Delimited text.  w: d delimiter, q quote, all (quote every cell),       *)
(* hdr (0 no header, 1 header), skip (lines before the header), eol,       *)
(* fin (the last line is terminated).                                      *)
(***************************************************************************)
Doubled(c, q) == FlattenS([i \in 1..Len(c) |-> IF c[i] = q THEN <<q, q>> ELSE <<c[i]>>])
NeedsQuote(c, d, q) == Has(c, d) \/ Has(c, q) \/ Has(c, "\n") \/ Has(c, "\r")
Field(c, d, q, all) == IF all = 1 \/ NeedsQuote(c, d, q) THEN <<q>> \o Doubled(c, q) \o <<q>> ELSE c
CsvLine(cs, d, q, all) == JoinS([i \in 1..Len(cs) |-> Field(cs[i], d, q, all)], <<d>>)
CsvLines(T, w) ==
  [i \in 1..w.skip |-> IF i % 2 = 1 THEN <<"n","o","t","e">> ELSE <<>>]
  \o (IF w.hdr = 1 THEN << CsvLine(T.cols, w.d, w.q, w.all) >> ELSE <<>>)
  \o [i \in 1..Len(T.rows) |-> CsvLine(T.rows[i], w.d, w.q, w.all)]
CsvText(T, w) ==
  LET ls == CsvLines(T, w) IN JoinS(ls, w.eol) \o (IF w.fin = 1 THEN w.eol ELSE <<>>)

\* What may be written this way and read back: no blank line
\* other than before the header, no line only made of one trailing delimiter.
CsvOk(T, w) ==
  /\ w.hdr = 0 => w.skip = 0 /\ Len(T.rows) > 0
  /\ \A i \in 1..Len(T.rows) : \E c \in CharSet(CsvLine(T.rows[i], w.d, w.q, w.all)) : c \notin {" ", "\t"} \ {w.d}
  /\ LET ls == CsvLines(T, w) IN
     \E i \in 1..Len(ls) : Len(SelectSeq(ls[i], LAMBDA c : c = w.d)) # 1 \/ ls[i][Len(ls[i])] # w.d

\* An independent reading of delimited text, one character at a time.
\* state: <<rows, row, cell, mode>>, mode "new" | "plain" | "quoted" | "closing"
ParseStep(s, c, d, q) ==
  LET rows == s[1] row == s[2] cell == s[3] m == s[4] IN
  IF m = "quoted" THEN (IF c = q THEN <<rows, row, cell, "closing">> ELSE <<rows, row, Append(cell, c), m>>)
  ELSE IF m = "closing" /\ c = q THEN <<rows, row, Append(cell, q), "quoted">>
  ELSE IF c = d THEN <<rows, Append(row, cell), <<>>, "new">>
  ELSE IF c = "\n" THEN <<Append(rows, Append(row, cell)), <<>>, <<>>, "new">>
  ELSE IF c = "\r" THEN s
  ELSE IF m = "new" /\ c = q THEN <<rows, row, cell, "quoted">>
  ELSE <<rows, row, Append(cell, c), IF m = "new" THEN "plain" ELSE m>>
ParseCsv(text, d, q) ==
  LET s == FoldLeft(LAMBDA a, c : ParseStep(a, c, d, q), << <<>>, <<>>, <<>>, "new" >>, text) IN
  IF s[2] = <<>> /\ s[3] = <<>> /\ s[4] = "new" THEN s[1] ELSE Append(s[1], Append(s[2], s[3]))

(***************************************************************************)
(* JSON.  w.form: "lines", "blank" (lines with blank lines between),       *)
(* "noise" (lines that are not JSON between, which are ignored), "array",  *)
(* "tree" (an array that is a member of an object) or "payload" (a member  *)
(* that holds the data, next to others about it).  Columns called n.x are  *)
(* written as member x of an object n.                                     *)
(***************************************************************************)
JEsc(c) == FlattenS([i \in 1..Len(c) |->
   CASE c[i] = "\"" -> <<"\\", "\"">> [] c[i] = "\\" -> <<"\\", "\\">>
     [] c[i] = "\n" -> <<"\\", "n">> [] c[i] = "\t" -> <<"\\", "t">> [] OTHER -> <<c[i]>>])
JStr(c) == <<"\"">> \o JEsc(c) \o <<"\"">>
JVal(c, m) == CASE m = "n" -> <<"n","u","l","l">> [] m = "i" -> c [] OTHER -> JStr(c)
Nested(name) == Len(name) > 2 /\ name[1] = "n" /\ name[2] = "."
JObj(ms) == <<"{">> \o JoinS(ms, <<",", " ">>) \o <<"}">>
JRec(T, i) ==
  LET js == SelectSeq([j \in 1..Len(T.cols) |-> j], LAMBDA j : T.marks[i][j] # "x")
      flat == SelectSeq(js, LAMBDA j : ~Nested(T.cols[j]))
      nest == SelectSeq(js, LAMBDA j : Nested(T.cols[j]))
      mem(j, nm) == JStr(nm) \o <<":", " ">> \o JVal(T.rows[i][j], T.marks[i][j])
      fm == [k \in 1..Len(flat) |-> mem(flat[k], T.cols[flat[k]])]
      nm == [k \in 1..Len(nest) |-> mem(nest[k], SubSeq(T.cols[nest[k]], 3, Len(T.cols[nest[k]])))]
  IN JObj(fm \o (IF nm = <<>> THEN <<>> ELSE << JStr(<<"n">>) \o <<":">> \o JObj(nm) >>))
\* the member that holds the data, and the others: names and cells
TreeKey == <<"r","s">>
PayKey(w) == IF w.grp = 2 THEN <<"p","a","y","l","o","a","d">> ELSE <<"d","a","t","a">>
Meta(w) == IF w.form # "payload" THEN <<>>
           ELSE << << <<"i",".","v">>, <<"1","2">> >>, << <<"m">>, <<"z">> >> >>
                \o (IF w.grp = 4 THEN << << <<"p","a","y","l","o","a","d",".","a">>, <<"q">> >> >> ELSE <<>>)
JMem(k, v) == JStr(k) \o <<":", " ">> \o v
JsonText(T, w) ==
  LET rs == [i \in 1..Len(T.rows) |-> JRec(T, i)]
      arr == <<"[">> \o JoinS(rs, <<",", "\n">>) \o <<"]">> IN
  CASE w.form = "array" -> arr
    [] w.form = "tree" -> JObj(<< JMem(TreeKey, arr) >>)
    [] w.form = "payload" ->
         JObj(<< JMem(<<"i">>, JObj(<< JMem(<<"v">>, <<"1","2">>) >>)) >>
              \o (IF w.grp = 4 THEN << JMem(<<"p","a","y","l","o","a","d">>, <<"[">> \o JObj(<< JMem(<<"a">>, JStr(<<"q">>)) >>) \o <<"]">>) >> ELSE <<>>)
              \o << JMem(PayKey(w), arr), JMem(<<"m">>, JStr(<<"z">>)) >>)
    [] w.form = "noise" -> JoinS(rs, <<"\n", "{", "x", "\n">>) \o <<"\n">>
    [] w.form = "blank" -> JoinS(rs, <<"\n", "\n">>) \o <<"\n">>
    [] OTHER -> JoinS(rs, <<"\n">>) \o (IF w.fin = 1 THEN <<"\n">> ELSE <<>>)

FileText(kind, T, w) ==
  CASE kind = "csv" -> CsvText(T, w) [] kind = "json" -> JsonText(T, w)
    [] kind = "text" -> CsvText(T, [w EXCEPT !.hdr = 0, !.skip = 0, !.all = 0]) [] OTHER -> <<>>

(***************************************************************************)
(* What a reader returns.  A reader remembers the table it was opened on   *)
(* (T, kind, w), the selected columns (sel: indices, <<>> is all), the     *)
(* data format and the number of lines / characters per record (k).        *)
(***************************************************************************)
Off == [on |-> FALSE]
None4 == <<"N","o","n","e">>
Nan3 == <<"n","a","n">>
CellOf(T, i, j) == CASE T.marks[i][j] = "n" -> None4 [] T.marks[i][j] = "x" -> Nan3 [] OTHER -> T.rows[i][j]
RECURSIVE NatC(_)
NatC(n) == LET dg == <<"0","1","2","3","4","5","6","7","8","9">> IN
  IF n < 10 THEN <<dg[n + 1]>> ELSE Append(NatC(n \div 10), dg[(n % 10) + 1])
Names(R) == [j \in 1..Len(R.T.cols) |-> IF R.kind = "csv" /\ R.w.hdr = 0 THEN NatC(j - 1)
                    ELSE IF R.kind = "json" /\ R.w.form = "tree" THEN TreeKey \o <<".">> \o R.T.cols[j]
                    ELSE IF R.kind = "json" /\ R.w.form = "payload" THEN PayKey(R.w) \o <<".">> \o R.T.cols[j]
                    ELSE R.T.cols[j]]
Sel(R) == IF R.sel = <<>> THEN [j \in 1..Len(R.T.cols) |-> j] ELSE R.sel
Cols(R) == [k \in 1..Len(Sel(R)) |-> Names(R)[Sel(R)[k]]]
Rows(R) == [i \in 1..Len(R.T.rows) |-> [k \in 1..Len(Sel(R)) |-> CellOf(R.T, i, Sel(R)[k])]]

\* groups of k lines (0: each line its own record)
RECURSIVE Grouped(_, _)
Grouped(ls, k) == IF ls = <<>> THEN <<>>
   ELSE LET m == IF k < Len(ls) THEN k ELSE Len(ls) IN
        << JoinS(SubSeq(ls, 1, m), <<"\n">>) >> \o Grouped(SubSeq(ls, m + 1, Len(ls)), k)
RECURSIVE Chunks(_, _)
Chunks(t, k) == IF t = <<>> THEN <<>>
   ELSE LET m == IF k < Len(t) THEN k ELSE Len(t) IN << SubSeq(t, 1, m) >> \o Chunks(SubSeq(t, m + 1, Len(t)), k)

\* delimited records: a header line and the rows
Minimal(cs, d, q) == IF Len(cs) = 1 /\ cs[1] = <<>> THEN <<q, q>> ELSE CsvLine(cs, d, q, 0)
\* the reader keeps the columns of a delimited file in the file's order
InFile(R) == SelectSeq([j \in 1..Len(R.T.cols) |-> j], LAMBDA j : R.sel = <<>> \/ \E k \in 1..Len(R.sel) : R.sel[k] = j)
CsvRecords(R) ==
  Grouped(<< Minimal([k \in 1..Len(InFile(R)) |-> Names(R)[InFile(R)[k]]], R.w.d, R.w.q) >>
          \o [i \in 1..Len(R.T.rows) |-> Minimal([k \in 1..Len(InFile(R)) |-> R.T.rows[i][InFile(R)[k]]], R.w.d, R.w.q)],
          IF R.k = 0 THEN 1 ELSE R.k)
\* universal newlines: a reader of a text file sees every line end as "\n"
PlainText(R) == SelectSeq(FileText("text", R.T, R.w), LAMBDA c : c # "\r" \/ R.via = "string")
TextChunks(R) == LET t == PlainText(R) IN IF R.k = 0 THEN (IF t = <<>> THEN <<>> ELSE <<t>>) ELSE Chunks(t, R.k)

Step(st, op) ==
  CASE op.op = "open"   -> [st EXCEPT ![op.p] = [on |-> TRUE, T |-> op.T, kind |-> op.kind, w |-> op.w, sel |-> op.sel,
                                                  fmt |-> op.fmt, k |-> op.k, n |-> op.n, via |-> op.via]]
    [] op.op = "reload" -> [st EXCEPT ![op.p] = [on |-> TRUE, T |-> op.T, kind |-> op.kind, w |-> op.w, sel |-> op.sel,
                                                  fmt |-> op.fmt, k |-> op.k, n |-> op.n, via |-> op.via]]
    [] op.op = "format" -> [st EXCEPT ![op.p].fmt = op.fmt]
    [] OTHER -> st
=============================================================================
