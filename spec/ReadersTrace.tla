---------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* Checks traces recorded from the real data readers against Readers.tla.  *)
(***************************************************************************)
EXTENDS Readers, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, st, dead
Slots == 1..2
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = [p \in Slots |-> Off] /\ dead = {}
Ev == Traces[t].steps[l]

SetOf(s) == {s[i] : i \in 1..Len(s)}
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
SameCols(o, R) == Len(o.cols) = Len(Cols(R)) /\ SetOf(o.cols) = SetOf(Cols(R))
\* the observed rows in the order of the expected columns
Aligned(o, R) == [i \in 1..Len(o.rows) |-> [k \in 1..Len(Cols(R)) |-> o.rows[i][At(o.cols, Cols(R)[k])]]]
Occurs(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
Within(a, b) == \A i \in 1..Len(a) : Occurs(a[i], a) <= Occurs(a[i], b)
MinOf(a, b) == IF a < b THEN a ELSE b
Shape(o) == \A i \in 1..Len(o.rows) : Len(o.rows[i]) = Len(o.cols)

Clauses(R, o) ==
  IF R.kind = "text" THEN { <<"text", o.recs = TextChunks(R)>>, <<"length", o.len = Len(TextChunks(R))>> }
  ELSE IF R.kind = "csv" /\ R.fmt = "records"
    THEN { <<"records", o.recs = CsvRecords(R)>>, <<"length", o.len = Len(CsvRecords(R))>>, <<"structured", o.struct = 0>> }
  ELSE LET sc == SameCols(o, R) /\ Shape(o) IN
       { <<"columns", sc>>,
         <<"order", (sc /\ R.kind \in {"csv", "parquet"} /\ R.sel = <<>>) => o.cols = Cols(R)>>,
         <<"rows", sc => IF R.n = 0 THEN Aligned(o, R) = Rows(R)
                         ELSE Within(Aligned(o, R), Rows(R)) /\ Len(o.rows) = MinOf(R.n, Len(R.T.rows))>>,
         <<"length", R.fmt \in {"dataframe", "flattened_dataframe"} => o.len = (IF R.n = 0 THEN Len(R.T.rows) ELSE MinOf(R.n, Len(R.T.rows)))>>,
         <<"index", R.fmt \in {"dataframe", "flattened_dataframe"} => o.index = [i \in 1..Len(o.rows) |-> i - 1]>>,
         <<"structured", o.struct = (IF R.fmt \in {"dataframe", "flattened_dataframe"} THEN 1 ELSE 0)>> }
       \cup (IF R.kind = "json" /\ R.fmt = "flattened_dataframe" THEN { <<"metadata", SetOf(o.meta) = SetOf(Meta(R.w))>> } ELSE {})
       \cup (IF R.kind = "csv" THEN { <<"delimiter", Len(R.T.cols) > 1 => o.delim = R.w.d>>,
                                      <<"header", o.header = (IF R.w.hdr = 1 THEN R.w.skip ELSE -1)>> } ELSE {})

Report(op, pid, cl) == PrintT(<<"FAIL", Traces[t].seed, l, op.op, pid, 0, cl, TRUE, "">>)
Next ==
  /\ l <= Len(Traces[t].steps)
  /\ LET op == Ev
         skip == op.p \in dead /\ op.op # "open"
         s2 == Step(st, op)
         R == s2[op.p]
     IN /\ IF skip THEN TRUE ELSE
           IF op.ok = 0 THEN Report(op, op.p, "accept") ELSE
           /\ \A c \in Clauses(R, op.obs) : ~c[2] => Report(op, op.p, c[1])
           /\ op.op = "open" /\ op.auto = 1 /\ op.found # op.kind => Report(op, op.p, "recognised")
           /\ op.op = "profile" /\ op.prof.same = 0 => Report(op, op.p, "profile")
           /\ op.op = "profile" /\ op.prof.type # "" /\ op.prof.type # R.kind => Report(op, op.p, "filetype")
           /\ Len(op.chg) > 0 => Report(op, op.chg[1], "interference")
        /\ st' = s2
        /\ dead' = IF op.ok = 0 \/ skip THEN dead \cup {op.p} ELSE dead \ (IF op.op = "open" THEN {op.p} ELSE {})
  /\ l' = l + 1 /\ UNCHANGED t
View == <<t, l>>
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 1, 0, Traces)
=============================================================================
