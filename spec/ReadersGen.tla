----------------------------- MODULE ReadersGen -----------------------------
(***************************************************************************)
(* Samples behaviours of Readers.tla: files, opened with given options     *)
(* ("read") or recognised by their content ("detect").                     *)
(***************************************************************************)
EXTENDS Readers, Rand, Json
CONSTANTS SeedLo, SeedHi, Flavour, NOps
VARIABLES seed, st, ops, rng, done
NSlots == 2
Slots == 1..NSlots
Auto == Flavour = "detect"

Alphabet == <<"a","b","Z","1","0",".","-"," ",",",";","\"","'","\n","~","#","\\","|","\t",":","{","[","a","2">>
Word(r, n, cs) == [i \in 1..n |-> RPick(RSub(r, i), cs)]
\* a cell with at most 4 characters of any kind
AnyCell(r) == SelectSeq(Word(RNext(r), RVal(r, 5), Alphabet), LAMBDA c : ~Auto \/ c # "~")
NamePool == << <<"i","d">>, <<"a"," ","b">>, <<"x",",","y">>, <<"Q","\"","t">>, <<"~","t">>, <<"n",".","u">>,
               <<"n",".","v">>, <<"Z","z","1">>, <<"k","'","k">>, <<"c",";","d">>, <<"l","a","s","t">> >>
PlainPool == << <<"i","d">>, <<"n","a","m","e">>, <<"c","i","t","y">>, <<"v","a","l","u","e">>, <<"s","i","z","e">>,
                <<"t","o","t","a","l">>, <<"k","i","n","d">> >>
Two(n) == NatC(10 + n)
Letters == <<"b","c","d","f","g","h","k","l","m","p","r","t","w","z">>
Vowels == <<"a","o","u">>
PlainWord(r) == <<RPick(r, Letters), RPick(RNext(r), Vowels), RPick(RSkip(r, 2), Letters)>>
PlainCell(kind, r) == CASE kind = 0 -> NatC(RIn(r, 10, 999))
                        [] kind = 1 -> PlainWord(r)
                        [] OTHER -> NatC(RIn(r, 10, 99)) \o <<".", "5">>

\* words that are long, or hold the delimiter, in files separated by commas
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN <<>> ELSE c \o Rep(c, n - 1)
Rich(T, r) ==
  LET long == RChance(r, 30)
      isw(c) == c # <<>> /\ ~IsDigit(c[1])
      new(i, j) == LET c == T.rows[i][j] IN
        IF ~isw(c) THEN c
        ELSE IF long THEN Rep(c, RIn(RSub(RSub(r, i), j), 8, 20))
        ELSE IF RChance(RSub(RSub(r, i), j), 25) THEN c \o <<",">> \o c ELSE c
  IN [T EXCEPT !.rows = [i \in 1..Len(T.rows) |-> [j \in 1..Len(T.cols) |-> new(i, j)]]]

Kind(r) == RPick(r, IF Auto THEN <<"csv", "csv", "csv", "json", "parquet", "avro", "text">>
                    ELSE <<"csv", "csv", "csv", "json", "json", "parquet", "avro", "text">>)

\* stored form of the cells of a column; whole numbers are complete columns
MarkOf(kind, ck, i, r) ==
  IF kind \in {"csv", "text"} THEN "s"
  ELSE IF ck = 0 THEN "i"
  ELSE IF ck = 1 THEN "s"
  ELSE LET x == RVal(r, 10) IN
       IF i = 1 THEN "s" ELSE IF x < 2 THEN "n" ELSE IF x = 2 /\ kind = "json" THEN "x" ELSE "s"

Table(kind, r) ==
  LET nc == IF kind = "text" THEN RIn(r, 1, 2) ELSE IF Auto /\ kind = "csv" THEN RIn(r, 2, 5) ELSE RIn(r, 1, 4)
      nr == IF kind = "text" THEN RIn(RNext(r), 1, 3)
            ELSE IF Auto /\ kind = "csv" THEN RIn(RNext(r), 5, 14)
            ELSE IF kind = "csv" THEN RIn(RNext(r), 0, 6) ELSE RIn(RNext(r), 1, 6)
      pool == IF Auto /\ kind \in {"csv", "text"} THEN PlainPool
              ELSE IF kind = "avro" THEN PlainPool
              ELSE IF kind = "json" THEN SelectSeq(NamePool, LAMBDA x : ~Auto \/ ~Has(x, "~"))
              ELSE SelectSeq(NamePool, LAMBDA x : ~Nested(x))
      nm == RShuffle(RSub(r, 3), pool)
      ck == [j \in 1..nc |-> RVal(RSub(r, 10 + j), 3)]
      numat == RIn(RSub(r, 4), 1, nc)
      cell(i, j) == LET q == RSub(RSub(r, 100 + i), j) IN
        IF Auto /\ kind = "csv" THEN PlainCell(IF j = numat THEN 0 ELSE ck[j], q)
        ELSE IF kind \notin {"csv", "text"} /\ ck[j] = 0 THEN NatC(RIn(q, 0, 9999))
        ELSE IF kind = "text" /\ Auto THEN PlainWord(q)
        ELSE IF kind = "text" THEN SelectSeq(AnyCell(q), LAMBDA c : c # "\n")
        ELSE AnyCell(q)
      rows == [i \in 1..nr |-> [j \in 1..nc |-> cell(i, j)]]
      raw == [i \in 1..nr |-> [j \in 1..nc |-> MarkOf(kind, ck[j], i, RSub(RSub(r, 300 + i), j))]]
  IN [cols |-> SubSeq(nm, 1, nc), rows |-> rows,
      \* a recognisable record is not empty
      marks |-> [i \in 1..nr |-> [j \in 1..nc |-> IF j = 1 /\ raw[i][j] = "x" THEN "n" ELSE raw[i][j]]]]

\* how the file is written
Way(kind, r) ==
  [d |-> RPick(r, IF Auto THEN <<",", "\t", ",", ";", "|">> ELSE <<",", ";", "|", "\t", ",", ":">>),
   q |-> IF ~Auto /\ RChance(RNext(r), 35) THEN "'" ELSE "\"",
   all |-> IF ~Auto /\ RChance(RSkip(r, 2), 25) THEN 1 ELSE 0,
   hdr |-> IF RChance(RSkip(r, 3), 75) THEN 1 ELSE 0,
   skip |-> IF ~Auto /\ RChance(RSkip(r, 4), 20) THEN RIn(RSkip(r, 5), 1, 3) ELSE 0,
   eol |-> IF RChance(RSkip(r, 6), 25) THEN <<"\r", "\n">> ELSE <<"\n">>,
   fin |-> IF RChance(RSkip(r, 7), 70) THEN 1 ELSE 0,
   form |-> RPick(RSkip(r, 8), IF Auto THEN <<"lines", "array", "blank", "lines", "tree", "payload">>
                              ELSE <<"lines", "array", "blank", "lines", "tree", "tree", "payload", "payload", "noise">>),
   enc |-> RPick(RSkip(r, 9), IF Auto THEN <<"utf-8", "utf-8", "utf-16", "utf-8-sig">> ELSE <<"utf-8", "utf-16", "latin-1", "utf-8">>),
   grp |-> RIn(RSkip(r, 10), 1, 4)]

\* no other character separates the lines of the file into as many columns
Unrivalled(T, w) ==
  w.d \in {",", "\t"} \/
  (/\ Len(T.cols) >= 3
   /\ LET ls == CsvLines(T, w) IN
      \A i \in 1..Len(ls) : \A c \in CharSet(ls[i]) \ {w.d, w.q} :
         Cardinality({k \in 1..Len(ls[i]) : ls[i][k] = c}) < Len(T.cols) - 1)
\* a way of writing the table that can be read back
Fit(kind, T, w0) ==
  LET w1 == IF kind = "csv" /\ w0.hdr = 0 THEN [w0 EXCEPT !.skip = 0] ELSE w0
      w2 == IF kind = "csv" /\ Len(T.rows) = 0 THEN [w1 EXCEPT !.hdr = 1] ELSE w1
      w3 == IF kind = "csv" /\ ~CsvOk(T, w2) THEN [w2 EXCEPT !.all = 1] ELSE w2
      w4 == IF kind = "csv" /\ Auto /\ ~Unrivalled(T, w3) THEN [w3 EXCEPT !.d = ","] ELSE w3
      \* recognising the encoding of a file takes more than one such letter
      w5 == IF Auto /\ kind = "json" THEN [w4 EXCEPT !.enc = "utf-8"] ELSE w4
  IN w5

Formats(kind) == CASE kind = "csv" -> <<"dataframe", "records">>
                   [] kind = "json" -> <<"flattened_dataframe", "dataframe", "records", "json">>
                   [] kind = "avro" -> <<"flattened_dataframe", "dataframe", "records", "json">>
                   [] kind = "parquet" -> <<"dataframe", "records", "json">>
                   [] OTHER -> <<"text">>
HasBreak(T) == \E i \in 1..Len(T.rows) : \E j \in 1..Len(T.cols) : Has(T.rows[i][j], "\n")

Zero == [op |-> "", p |-> 1, T |-> [cols |-> <<>>, rows |-> <<>>, marks |-> <<>>], kind |-> "", w |-> <<>>, sel |-> <<>>,
         fmt |-> "", k |-> 0, n |-> 0, via |-> "path", text |-> <<>>, auto |-> 0, given |-> <<>>]
On == {p \in Slots : st[p].on}
Listed(S) == SetToSortSeq(S, <)

File(kind, r, o, p) ==
  LET T1 == Table(kind, RSub(r, 1))
      w == Fit(kind, T1, Way(kind, RSub(r, 2)))
      sub == kind = "json" /\ w.form \in {"tree", "payload"}
      \* (members of an object in a list are put together by position)
      T0 == IF ~sub THEN T1 ELSE [T1 EXCEPT !.marks = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> IF @[i][j] = "x" THEN "n" ELSE @[i][j]]]]
      T == IF Auto /\ kind = "csv" /\ w.d = "," /\ RChance(RSub(r, 14), 40) THEN Rich(T0, RSub(r, 15)) ELSE T0
      nc == Len(T.cols)
      picks == RShuffle(RSub(r, 5), [j \in 1..nc |-> j])
      nm(j) == T.cols[j]
      sel == IF RChance(RSub(r, 6), 25) /\ kind # "text" /\ ~sub /\ (kind # "csv" \/ w.hdr = 1)
             THEN SubSeq(picks, 1, RIn(RSub(r, 7), 1, nc)) ELSE <<>>
      fmts == IF kind = "csv" /\ HasBreak(T) THEN <<"dataframe">> ELSE IF sub THEN <<"flattened_dataframe">> ELSE Formats(kind)
      n == IF kind \in {"csv", "parquet"} /\ ~HasBreak(T) /\ (kind # "csv" \/ Len(T.rows) > 0) /\ RChance(RSub(r, 8), 20) THEN RIn(RSub(r, 9), 1, 5) ELSE 0
      fmt == IF n > 0 THEN "dataframe" ELSE RPick(RSub(r, 10), fmts)
      via == RPick(RSub(r, 11), IF kind \in {"csv"} THEN <<"path", "path", "bytes", "string", "memory">>
                               ELSE IF kind = "json" THEN <<"path", "bytes", "string", "memory">>
                               ELSE IF kind = "text" THEN <<"path", "bytes", "string">>
                               ELSE <<"path", "bytes">>)
  IN [Zero EXCEPT !.op = o, !.p = p, !.kind = kind, !.T = T, !.w = w, !.sel = sel, !.fmt = fmt, !.n = n,
        !.k = IF fmt \in {"records", "text"} /\ kind \in {"csv", "text"} THEN RVal(RSub(r, 12), 4) ELSE 0,
        !.via = IF Auto /\ via = "memory" THEN "path" ELSE IF n > 0 /\ via = "memory" THEN "path" ELSE via,
        !.text = FileText(kind, T, w), !.auto = IF Auto THEN 1 ELSE 0,
        \* which of the settings of the file the reader is told
        !.given = IF Auto THEN (IF RChance(RSub(r, 13), 20) THEN <<"delimiter">> ELSE <<>>)
                  ELSE <<"delimiter", "header", "quotechar", "encoding">>]

MkOpen(r) == File(Kind(RSub(r, 1)), RSub(r, 3), "open", RIn(RSub(r, 2), 1, NSlots))
MkReload(r) == LET p == RPick(RSub(r, 2), Listed(On)) IN
   IF st[p].kind = "csv" /\ ~Auto THEN MkOpen(r) ELSE File(st[p].kind, RSub(r, 4), "reload", p)
MkFormat(r) == LET p == RPick(RSub(r, 2), Listed(On)) IN
   IF st[p].n > 0 \/ (st[p].kind = "json" /\ st[p].w.form \in {"tree", "payload"}) \/ (st[p].kind = "csv" /\ HasBreak(st[p].T)) THEN [Zero EXCEPT !.op = "look", !.p = p]
   ELSE [Zero EXCEPT !.op = "format", !.p = p, !.fmt = RPick(RSub(r, 3), Formats(st[p].kind))]
MkOp(r) == IF On = {} THEN MkOpen(r) ELSE
  LET o == RPick(RSub(r, 60), <<"open", "open", "reload", "format", "look", "profile">>) IN
  CASE o = "open" -> MkOpen(r) [] o = "reload" -> MkReload(r) [] o = "format" -> MkFormat(r)
    [] OTHER -> [Zero EXCEPT !.op = o, !.p = RPick(RSub(r, 2), Listed(On))]

Init == /\ seed \in SeedLo..SeedHi
        /\ rng = RNext(RNext(RNext(RSeed(seed))))
        /\ st = [p \in Slots |-> Off] /\ ops = <<>> /\ done = FALSE
Do == /\ Len(ops) < NOps
      /\ LET op == MkOp(RSub(rng, 7)) IN st' = Step(st, op) /\ ops' = Append(ops, op)
      /\ rng' = RSub(rng, 9) /\ UNCHANGED <<seed, done>>
Out == /\ Len(ops) = NOps /\ ~done /\ PrintT(ToJson([seed |-> seed, ops |-> ops]))
       /\ done' = TRUE /\ UNCHANGED <<seed, st, ops, rng>>
Next == Do \/ Out
View == <<seed, Len(ops), done>>
=============================================================================
