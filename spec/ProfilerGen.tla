----------------------------- MODULE ProfilerGen ----------------------------
(***************************************************************************)
(* Samples behaviours of Profiler.tla: each seed determines one behaviour  *)
(* (a sequence of enabled operations with their data), printed as JSON for *)
(* the conformance driver to replay against the real profiler.             *)
(***************************************************************************)
EXTENDS Profiler, Cells, Json
CONSTANTS SeedLo, SeedHi, Flavour, NOps

VARIABLES seed, st, ops, rng, plan, done
vars == <<seed, st, ops, rng, plan, done>>

NSlots == 4
Slots == 1..NSlots

(***************************************************************************)
(* A flavour fixes which operations, column kinds, null rates, batch sizes *)
(* and options presets are sampled.                                        *)
(***************************************************************************)
AllKinds == <<"int","flt","txt","cat","dat","mix","nul","con","coz","pos","zer","bin","num","int","flt","txt","dts","odd","nea","dmx">>
NumKinds == <<"int","flt","zer","coz","con","num","pos","bin","int","flt","odd">>
F == CASE Flavour = "stream" -> [ops |-> <<"update">>, kinds |-> AllKinds, np |-> 20, maxb |-> 7, cfg |-> <<"plain">>, nc |-> 3, mess |-> 0]
       [] Flavour = "moments" -> [ops |-> <<"update","update","merge">>, kinds |-> NumKinds, np |-> 10, maxb |-> 5, cfg |-> <<"plain","bias","far">>, nc |-> 3, mess |-> 0]
       [] Flavour = "merge" -> [ops |-> <<"update","merge","merge","new">>, kinds |-> AllKinds, np |-> 20, maxb |-> 6, cfg |-> <<"plain">>, nc |-> 3, mess |-> 10]
       [] Flavour = "alias" -> [ops |-> <<"update","update","merge","merge","report","diff","reload">>, kinds |-> AllKinds, np |-> 25, maxb |-> 5, cfg |-> <<"plain","hll","corr","nrep","cms">>, nc |-> 2, mess |-> 0]
       [] Flavour = "pickle" -> [ops |-> <<"update","reload","merge","update","reload">>, kinds |-> AllKinds, np |-> 25, maxb |-> 5, cfg |-> <<"plain","plain","hll","corr","nrep","cms","nulls","colnulls","topk","stop","bias","heavy">>, nc |-> 3, mess |-> 0]
       [] Flavour = "json" -> [ops |-> <<"update","reload","merge","update","reload">>, kinds |-> AllKinds, np |-> 25, maxb |-> 5, cfg |-> <<"plain","plain","plain","corr","nrep","nulls","colnulls","topk","stop","bias">>, nc |-> 3, mess |-> 0]
       [] Flavour = "null" -> [ops |-> <<"update","update","update","merge","new">>, kinds |-> AllKinds, np |-> 50, maxb |-> 7, cfg |-> <<"plain","nulls","colnulls","nulls">>, nc |-> 3, mess |-> 0]
       [] Flavour = "rows" -> [ops |-> <<"update","update","merge","new">>, kinds |-> <<"bin","bin","cat","nul","con">>, np |-> 20, maxb |-> 8, cfg |-> <<"plain","plain","hll">>, nc |-> 4, mess |-> 25]
       [] Flavour = "schema" -> [ops |-> <<"update","update","merge","new">>, kinds |-> AllKinds, np |-> 15, maxb |-> 4, cfg |-> <<"plain">>, nc |-> 3, mess |-> 60]
       [] Flavour = "type" -> [ops |-> <<"update","update","merge">>, kinds |-> <<"int","flt","txt","dat","mix","num","nul","mix","dts","dts","dmx","may","odd","nea","odd","tim">>, np |-> 30, maxb |-> 4, cfg |-> <<"plain","plain","plain","plain","plain","plain","plain","long">>, nc |-> 4, mess |-> 0]
       [] Flavour = "hist" -> [ops |-> <<"update","merge","new">>, kinds |-> <<"int","flt","zer","num","pos","bin","txt","con">>, np |-> 10, maxb |-> 40, cfg |-> <<"plain","plain","far">>, nc |-> 2, mess |-> 0]
       [] Flavour = "relate" -> [ops |-> <<"update","update","merge","new","reload">>, kinds |-> <<"int","flt","bin","bin","num","con","pos","int","flt","cat","nul">>, np |-> 20, maxb |-> 6, cfg |-> <<"corr","nrep","plain">>, nc |-> 3, mess |-> 25]
       [] Flavour = "corr" -> [ops |-> <<"update","update","merge","new","reload">>, kinds |-> <<"int","flt","bin","num","con","pos","int","flt">>, np |-> 0, maxb |-> 5, cfg |-> <<"corr">>, nc |-> 3, mess |-> 20]
       [] Flavour = "order" -> [ops |-> <<"update","update","merge","new","reload">>, kinds |-> <<"ord","ord","ord","ord","bin","con","cat","nul","mix","txt">>, np |-> 15, maxb |-> 3, cfg |-> <<"plain">>, nc |-> 3, mess |-> 10]
       [] Flavour = "cats" -> [ops |-> <<"update","update","merge","new","reload">>, kinds |-> <<"int","flt","cat","cat","bin","txt","dat","pos","mix","con">>, np |-> 15, maxb |-> 9, cfg |-> <<"plain","topk","stop","heavy","stop","heavy","cms">>, nc |-> 2, mess |-> 10]
       [] Flavour = "diff" -> [ops |-> <<"update","diff","diff","merge","new">>, kinds |-> <<"int","flt","txt","cat","dat","nul","con","coz","pos","bin","num","int","flt","txt","dts","ord","odd","tim","may">>, np |-> 20, maxb |-> 5, cfg |-> <<"plain", "plain", "corr">>, nc |-> 3, mess |-> 8]
       [] Flavour = "forms" -> [ops |-> <<"update","update","merge","new">>, kinds |-> <<"int","flt","txt","cat","dat","mix","nul","con","zer","bin","num","dts","odd","stm","stm","boo">>, np |-> 20, maxb |-> 6, cfg |-> <<"plain">>, nc |-> 3, mess |-> 0]
       [] Flavour = "options" -> [ops |-> <<"update","update","merge","new","reload">>, kinds |-> AllKinds, np |-> 20, maxb |-> 5, cfg |-> <<"plain">>, nc |-> 3, mess |-> 5]
       [] Flavour = "views" -> [ops |-> <<"update","view","view","view","merge","new","reload">>, kinds |-> AllKinds, np |-> 20, maxb |-> 5, cfg |-> <<"plain","plain","corr","nrep">>, nc |-> 3, mess |-> 15]
       [] Flavour = "sample" -> [ops |-> <<"update","update","merge","new","reload","update","update","merge","new","reload","update","update","merge","new","reload","big">>, kinds |-> AllKinds, np |-> 20, maxb |-> 9, cfg |-> <<"plain">>, nc |-> 3, mess |-> 0]
       [] Flavour = "fill" -> [ops |-> <<"update","new","merge","reload">>, kinds |-> <<"uni", "uni", "uni", "nul">>, np |-> 45, maxb |-> 6, cfg |-> <<"plain">>, nc |-> 3, mess |-> 0]
       [] OTHER -> Assert(FALSE, "unknown flavour")

Names == << <<"a">>, <<"b">>, <<"C","o","l">>, <<"d"," ","1">>, <<"A","b">>, <<"0">> >>
\* plan: what the columns of this behaviour look like
MkPlan(r) ==
  LET n  == RIn(r, IF Flavour = "sample" THEN 2 ELSE 1, F.nc)
      nm == RShuffle(RSub(r, 1), Names)
      dup == F.mess > 0 /\ n > 1 /\ RChance(RSub(r, 2), F.mess)
      cfg == RPick(RSub(r, 3), F.cfg)
      lists == Flavour = "forms" /\ RChance(RSub(r, 4), 25)
      kd(j) == CASE cfg = "far" -> RPick(RSub(r, 10 + j), <<"fai", "far">>)
                 [] Flavour = "sample" /\ j = n -> "nul"
                 [] cfg = "long" -> RPick(RSub(r, 10 + j), <<"lng">>)
                 [] OTHER -> RPick(RSub(r, 10 + j), F.kinds)
  IN [ cfg   |-> cfg, lists |-> lists, rng |-> RSub(r, 77),
       form |-> IF Flavour # "forms" THEN "str" ELSE IF lists THEN "list"
                ELSE IF n = 1 /\ RChance(RSub(r, 5), 30) THEN "series"
                ELSE RPick(RSub(r, 6), <<"native", "numpy", "reader", "mixed", "native">>),
       cols  |-> [j \in 1..n |-> IF lists THEN <<DigitCh[j]>> ELSE IF dup /\ j = 2 THEN nm[1] ELSE nm[j]],
       kinds |-> [j \in 1..n |-> kd(j)],
       \* per-column percentage of nulls
       nulls |-> [j \in 1..n |-> IF RChance(RSub(r, 20 + j), 40) THEN 0 ELSE RVal(RSub(r, 30 + j), 2 * F.np + 1)] ]

Swap(c) == IF c \in DOMAIN LowerFcn THEN LowerFcn[c]
           ELSE IF \E p \in LowerPairs : p[2] = c THEN (CHOOSE p \in LowerPairs : p[2] = c)[1] ELSE c

\* cells which are all different, also from those of other batches
Uniques(n, pct, r, j) ==
  [i \in 1..n |-> LET q == RSub(r, i) x == IntChars(6 * Len(ops) + i - 22) IN
     IF RChance(q, pct) THEN NullCell(RNext(q))
     ELSE IF j = 2 THEN <<"v">> \o x ELSE IF RChance(RSub(plan.rng, j), 30) THEN x \o <<".","5">> ELSE x]

\* a batch for the plan's columns; with the flavour's mess percentage the
\* columns arrive in another order, in another letter case, or are not the
\* profile's columns at all
Batch(r, n) ==
  LET nc == Len(plan.cols)
      \* now and then a column is empty, constant or of another kind in this batch only
      mod(j) == IF F.np = 0 \/ Flavour = "sample" \/ ~RChance(RSub(r, 200 + j), 45) THEN 0 ELSE RVal(RSub(r, 220 + j), 10)
      data == [j \in 1..nc |->
                 IF mod(j) \in 1..5 THEN [i \in 1..n |-> NullCell(RSub(r, 240 + i * j))]
                 ELSE IF plan.kinds[j] = "uni" THEN Uniques(n, plan.nulls[j], RSub(r, 100 + j), j)
                 ELSE IF mod(j) \in {6, 7} /\ Flavour # "fill" /\ plan.cfg \notin {"far", "long"}
                 THEN CellCol(RPick(RSub(r, 230 + j), F.kinds), n, plan.nulls[j], RSub(r, 100 + j))
                 ELSE LET c == CellCol(plan.kinds[j], n, plan.nulls[j], RSub(r, 100 + j)) IN
                      IF mod(j) \in {8, 9} THEN [i \in 1..n |-> c[1]] ELSE c]
      perm == IF RChance(RSub(r, 1), F.mess) THEN RShuffle(RSub(r, 2), [j \in 1..nc |-> j])
              ELSE [j \in 1..nc |-> j]
      recase == RChance(RSub(r, 3), F.mess \div 3)
      nm(j) == IF recase THEN [i \in 1..Len(plan.cols[j]) |-> Swap(plan.cols[j][i])] ELSE plan.cols[j]
      bad == RChance(RSub(r, 4), F.mess \div 5)
      base == [cols |-> [j \in 1..nc |-> nm(perm[j])], data |-> [j \in 1..nc |-> data[perm[j]]]]
  IN IF ~bad THEN base
     ELSE IF nc > 1 /\ RChance(RSub(r, 5), 50)
          THEN [cols |-> Tail(base.cols), data |-> Tail(base.data)]       \* a column missing
          ELSE [cols |-> Append(base.cols, <<"q">>), data |-> Append(base.data, data[1])] \* a column too many

Zero == [op |-> "", p |-> 0, q |-> 0, r |-> 0, cols |-> <<>>, data |-> <<>>, ids |-> <<>>, off |-> <<>>, m |-> "",
         fmt |-> "", omit |-> <<>>, g |-> 0, rdf |-> 0,
         k |-> 0, mt |-> 0, take |-> <<>>, nl |-> <<>>, nv |-> <<>>]
On == {p \in Slots : st[p].on}
Listed(S) == SetToSortSeq(S, <)
\* a profile in use, often the one written last
Lately == IF ops = <<>> THEN 0 ELSE LET o == ops[Len(ops)] IN IF o.r # 0 THEN o.r ELSE o.p
APick(r) == IF Lately \in On /\ RChance(RSub(r, 3), 40) THEN Lately ELSE RPick(r, Listed(On))
\* slots a result may be written to (the last slot is overwritten when all are in use)
FreeSlot == IF On = Slots THEN NSlots ELSE Min(Slots \ On)

\* statistics to switch off: parts are the same for all profiles of most
\* behaviours (they could not be added otherwise), few choices are incoherent
OffNums == <<"min", "max", "mode", "median", "mad", "zeros", "negs", "kurtosis", "skewness", "variance", "sum", "hist">>
OffElse == <<"prec", "vocab">>
OffParts == <<"int", "float", "datetime", "string", "order", "category", "uniqrows", "nullrows", "rowstats">>
OffTypes == <<"", "", "int.", "float.", "string.">>
MkOff(r) ==
  IF Flavour \notin {"options", "views"} \/ plan.cfg # "plain" THEN <<>> ELSE
  LET all0 == {OffParts[k] : k \in {k \in 1..Len(OffParts) : RChance(RSub(plan.rng, 10 + k), 12)}}
      one == {RPick(RSub(r, 2), OffParts)}                              \* now and then one part more or less
      parts == IF RChance(RSub(r, 1), 85) THEN all0 ELSE (all0 \ one) \cup (one \ all0)
      els == {OffElse[k] : k \in {k \in 1..Len(OffElse) : RChance(RSub(IF RChance(RSub(r, 3), 60) THEN plan.rng ELSE r, 20 + k), 20)}}
      nums == {RPick(RSub(r, 50 + k), OffTypes) \o OffNums[k] : k \in {k \in 1..Len(OffNums) : RChance(RSub(r, 30 + k), 18)}}
      \* (added profiles which do not agree on chi2 may or may not report it)
      all == parts \cup els \cup nums \cup (IF RChance(RSub(plan.rng, 5), 25) THEN {"chi2"} ELSE {})
  IN SetToSeq(IF Flavour = "options" /\ RChance(RSub(r, 4), 8) THEN all ELSE Coherently(all, 4))

\* labels for n rows: counting from start, every other number, or in another order
RowIds(r, n, start) ==
  LET k == IF plan.lists THEN 9 ELSE RVal(r, 10)
      step == IF k = 0 THEN 3 ELSE 1
      seq == [i \in 1..n |-> start + step * (i - 1)]
  IN IF k = 1 THEN RShuffle(RNext(r), seq) ELSE seq
\* sample sizes
Size(r, op) ==
  IF Flavour \notin {"sample", "fill"} \/ (op = "update" /\ RChance(r, 70)) THEN 0 ELSE RIn(RNext(r), 1, IF Flavour = "fill" THEN 4 ELSE F.maxb)
Wanted(r, op) ==
  IF Flavour # "fill" \/ (op = "update" /\ RChance(r, 80)) THEN 0 ELSE RIn(RNext(r), 1, 4)
\* now and then a batch with more than ten different values
MkNew(r) == LET n == RIn(RSub(r, 50), 1, F.maxb + (IF Flavour = "diff" /\ RChance(RSub(r, 52), 15) THEN 10 ELSE 0)) b == Batch(r, n) IN
   [Zero EXCEPT !.op = "new", !.p = FreeSlot, !.cols = b.cols, !.data = b.data, !.off = MkOff(RSub(r, 58)),
                !.k = Size(RSub(r, 81), "new"), !.mt = Wanted(RSub(r, 82), "new"),
                !.ids = RowIds(RSub(r, 55), n, IF plan.lists \/ RChance(RSub(r, 56), 80) THEN 0 ELSE RIn(RSub(r, 57), 1, 20))]
MkUpdate(r) ==
   LET n == IF RChance(RSub(r, 51), 8) THEN 0 ELSE RIn(RSub(r, 50), 1, F.maxb)
       b == Batch(r, n)
       p == APick(RSub(r, 52))
       k == RVal(RSub(r, 53), 10)
       start == IF plan.lists \/ k < 4 THEN 0 ELSE IF k < 6 THEN NRows(st[p]) ELSE IF k < 9 THEN MaxOf(st[p].ids) + 1
                ELSE MaxOf(st[p].ids) + 7 IN
   [Zero EXCEPT !.op = "update", !.p = p, !.k = Size(RSub(r, 81), "update"), !.mt = Wanted(RSub(r, 82), "update"), !.cols = b.cols, !.data = b.data,
                !.ids = RowIds(RSub(r, 55), n, start)]
MkMerge(r) == [Zero EXCEPT !.op = "merge", !.p = APick(RSub(r, 52)),
                           !.q = APick(RSub(r, 54)), !.r = FreeSlot]
MkReload(r) == [Zero EXCEPT !.op = "reload", !.p = APick(RSub(r, 52)), !.r = FreeSlot,
                            !.m = IF Flavour = "json" \/ (Flavour \in {"options", "sample", "fill"} /\ RChance(RSub(r, 59), 50)) THEN "json" ELSE "pickle"]
MkLook(r, o) == [Zero EXCEPT !.op = o, !.p = APick(RSub(r, 52)), !.q = APick(RSub(r, 54))]

\* a report: its format, what to leave out ("@1" is the name of the first column),
\* the number of quantile groups, whether to leave out what is switched off
Keys1 == <<"global_stats", "data_stats", "data_stats", "data_stats", "data_stats", "*", "*">>
KeysG == <<"row_count", "times", "profile_schema", "chi2_matrix", "*", "encoding", "unique_row_ratio", "correlation_matrix">>
Keys2 == <<"*", "*", "*", "@1", "@2", "@3">>
Keys3 == <<"statistics", "statistics", "statistics", "statistics", "*", "samples", "order", "column_name", "data_type", "categorical", "null_replication_metrics">>
Keys4 == <<"min", "max", "mean", "times", "histogram", "quantiles", "vocab", "null_types", "null_types_index", "categories",
           "categorical_count", "*", "data_type_representation", "precision", "sample_size", "median", "stddev", "format">>
Keys5 == <<"bin_edges", "bin_counts", "*", "int", "var", "datetime", "a", "min">>
MkPattern(r) ==
  LET n == RPick(RSub(r, 1), <<1, 2, 2, 3, 4, 4, 4, 4, 5, 5>>)
      k1 == IF n = 1 /\ RChance(RSub(r, 8), 60) THEN RPick(RSub(r, 7), <<"times", "statistics", "min">>) ELSE RPick(RSub(r, 2), Keys1)
      k2 == IF k1 = "global_stats" \/ (k1 = "*" /\ RChance(RSub(r, 9), 40)) THEN RPick(RSub(r, 3), KeysG) ELSE RPick(RSub(r, 3), Keys2)
  IN SubSeq(<<k1, k2, RPick(RSub(r, 4), Keys3), RPick(RSub(r, 5), Keys4), RPick(RSub(r, 6), Keys5)>>, 1, n)
MkView(r) ==
  [Zero EXCEPT !.op = "view", !.p = APick(RSub(r, 52)),
     !.fmt = RPick(RSub(r, 61), <<"", "pretty", "compact", "serializable", "flat">>),
     !.omit = IF RChance(RSub(r, 62), 30) THEN <<>> ELSE [i \in 1..RIn(RSub(r, 63), 1, 3) |-> MkPattern(RSub(r, 70 + i))],
     !.g = RPick(RSub(r, 64), <<4, 4, 2, 3, 5, 10, 1, 7, 100, 1000, 1001, 0, 999, 32>>),
     !.rdf = IF RChance(RSub(r, 65), 50) THEN 1 ELSE 0]

\* a long table (g rows, of which rdf percent are to be looked at), twice
MkBig(r) == [Zero EXCEPT !.op = "big", !.g = RPick(r, <<4999, 5000, 5001, 9999, 10001, 10010, 25000, 25005, 26017>>),
                         !.rdf = RPick(RNext(r), <<20, 20, 50, 100>>)]
MkOp(r) ==
  IF On = {} THEN MkNew(r) ELSE
  LET o == RPick(RSub(r, 60), F.ops) IN
  CASE o = "new" -> MkNew(r) [] o = "update" -> MkUpdate(r)
    [] o = "merge" -> (LET m == MkMerge(r) IN
                        IF Cardinality(On) < 2 \/ NRows(st[m.p]) + NRows(st[m.q]) > (IF Flavour = "hist" THEN 300 ELSE 120) THEN MkNew(r) ELSE m)
    [] o = "reload" -> MkReload(r) [] o = "view" -> MkView(r) [] o = "big" -> MkBig(r) [] OTHER -> MkLook(r, o)

Init == /\ seed \in SeedLo..SeedHi
        /\ rng = RNext(RNext(RNext(RSeed(seed))))
        /\ plan = MkPlan(rng)
        /\ st = [p \in Slots |-> Off] /\ ops = <<>> /\ done = FALSE
Do == /\ Len(ops) < NOps
      /\ LET op == MkOp(RSub(rng, 7)) IN
           /\ st' = Step(st, op, plan.cfg) /\ ops' = Append(ops, op)
      /\ rng' = RSub(rng, 9)
      /\ UNCHANGED <<seed, plan, done>>
Out == /\ Len(ops) = NOps /\ ~done
       /\ PrintT(ToJson([seed |-> seed, pairs |-> IF Flavour \in {"relate", "corr", "options"} THEN 1 ELSE IF Flavour = "diff" THEN 2 ELSE 0, sampling |-> IF Flavour = "sample" THEN 1 ELSE IF Flavour = "fill" THEN 2 ELSE 0, cfg |-> plan.cfg, form |-> plan.form, ops |-> ops]))
       /\ done' = TRUE /\ UNCHANGED <<seed, st, ops, rng, plan>>
Next == Do \/ Out
View == <<seed, Len(ops), done>>
=============================================================================
