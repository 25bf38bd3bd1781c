-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Profiles of long tables.                                                *)
(*                                                                         *)
(* A long batch is given as runs: rows, each with how often it occurs.     *)
(* The state of a profile is all the runs it has been given; what it       *)
(* reports about a column is a function of how often each cell occurs      *)
(* (BulkMC.tla has TLC check that it is the function Column.tla defines on *)
(* the cells one by one).                                                  *)
(*                                                                         *)
(* A table may have a last column of numbers that differ from row to row:  *)
(* ramp = <<from, n>> says that a batch has from .. from + n - 1 there.    *)
(***************************************************************************)
EXTENDS Column

Off == [on |-> FALSE, nc |-> 0, runs |-> <<>>, ramps |-> <<>>, vague |-> {}, pn |-> <<>>, via |-> {}, nb |-> 0]
RowsIn(runs) == FoldLeft(LAMBDA a, x : a + x.n, 0, runs)
\* how often each cell occurs in column j
CellBag(runs, j) ==
  LET cs == {runs[i].row[j] : i \in 1..Len(runs)} IN
  [c \in cs |-> FoldLeft(LAMBDA a, x : a + (IF x.row[j] = c THEN x.n ELSE 0), 0, runs)]

--------------------------------------------------------------------------
\* Summaries of bags.
Total(B, S) == FoldSet(LAMBDA c, a : a + B[c], 0, S)
WNumAdd(a, v, k) ==
  [n |-> a.n + k,
   mn |-> IF a.n = 0 \/ v < a.mn THEN v ELSE a.mn,
   mx |-> IF a.n = 0 \/ v > a.mx THEN v ELSE a.mx,
   s1 |-> a.s1 + k * v, s2 |-> a.s2 + k * v * v, s3 |-> a.s3 + k * v * v * v,
   s4 |-> a.s4 + k * v * v * v * v,
   z |-> a.z + (IF v = 0 THEN k ELSE 0), g |-> a.g + (IF v < 0 THEN k ELSE 0)]
WNum(B, S, f(_)) == FoldSet(LAMBDA c, a : WNumAdd(a, f(c), B[c]), NoNum, S)
\* texts whose lengths have power sums TLC can compute
Short(c) == Len(c) <= 3
WSumm(B, null(_)) ==
  LET vs == TLCEval({c \in DOMAIN B : ~null(c)})
      nums == TLCEval({c \in vs : Facts(c).num})
      ints == TLCEval({c \in vs : Facts(c).int})
      dats == TLCEval({c \in vs : Facts(c).fm # {}})
  IN [ n |-> Total(B, DOMAIN B), v |-> Total(B, vs),
       null |-> [c \in DOMAIN B \ vs |-> B[c]],
       ci |-> Total(B, ints), cf |-> Total(B, nums), cd |-> Total(B, dats),
       int |-> WNum(B, ints, LAMBDA c : Facts(c).val),
       flt |-> WNum(B, nums, LAMBDA c : Facts(c).val),
       txt |-> WNum(B, {c \in vs : Short(c)}, LAMBDA c : 4 * Len(c)),
       long |-> \E c \in vs : ~Short(c),
       dat |-> DatesOf(SetToSeq(dats)),
       dfm |-> {Facts(c).fm : c \in dats},
       sig |-> WNum(B, nums, LAMBDA c : Facts(c).sig),
       vocab |-> UNION {Facts(c).ch : c \in vs},
       cats |-> [c \in vs |-> B[c]] ]

\* The k-th smallest of the numbers f(c), each B[c] times.
Kth(B, S, f(_), k) ==
  LET xs == {f(c) : c \in S}
      upto(x) == Total(B, {c \in S : f(c) <= x}) IN
  Min({x \in xs : upto(x) >= k})
\* twice the median
WMedian2(B, S, f(_)) ==
  LET n == Total(B, S) IN
  IF n % 2 = 1 THEN 2 * Kth(B, S, f, (n + 1) \div 2) ELSE Kth(B, S, f, n \div 2) + Kth(B, S, f, n \div 2 + 1)

--------------------------------------------------------------------------
\* Rows.
WRows(runs, nc, null(_)) ==
  [ rows |-> RowsIn(runs),
    hasnull |-> RowsIn(SelectSeq(runs, LAMBDA x : \E j \in 1..nc : null(x.row[j]))),
    isnull |-> RowsIn(SelectSeq(runs, LAMBDA x : \A j \in 1..nc : null(x.row[j]))),
    uniq |-> Cardinality({runs[i].row : i \in 1..Len(runs)}) ]

--------------------------------------------------------------------------
\* A batch in which some but not most values of a column are dates may or may
\* not be searched for them.
Vague(runs, nc) ==
  {j \in 1..nc : LET s == CellBag(runs, j)
                     vs == {c \in DOMAIN s : ~DefaultNull(c)}
                     d == Total(s, {c \in vs : Facts(c).fm # {}}) v == Total(s, vs) IN
                 d > 0 /\ 10 * d < 6 * v}
\* Significant figures are counted in at most this many numbers of a batch.
PrecMax == 20000
Figured(runs, nc) ==
  [j \in 1..nc |-> LET B == CellBag(runs, j)
                       k == Total(B, {c \in DOMAIN B : ~DefaultNull(c) /\ Facts(c).num}) IN IF k < PrecMax THEN k ELSE PrecMax]
Add(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
Step(st, op) ==
  CASE op.op = "new" -> [st EXCEPT ![op.p] = [on |-> TRUE, nc |-> op.nc, runs |-> op.runs, ramps |-> op.ramp,
                                              vague |-> Vague(op.runs, op.nc), pn |-> Figured(op.runs, op.nc), via |-> {"new"}, nb |-> 1]]
    [] op.op = "update" -> [st EXCEPT ![op.p] = [@ EXCEPT !.runs = @ \o op.runs, !.ramps = @ \o op.ramp,
                                                 !.vague = @ \cup Vague(op.runs, op.nc), !.pn = Add(@, Figured(op.runs, op.nc)), !.via = @ \cup {"update"}, !.nb = @ + 1]]
    [] op.op = "merge" -> [st EXCEPT ![op.r] =
          LET a == st[op.p] b == st[op.q] IN
          [on |-> TRUE, nc |-> a.nc, runs |-> a.runs \o b.runs, ramps |-> a.ramps \o b.ramps, vague |-> a.vague \cup b.vague, pn |-> Add(a.pn, b.pn),
           via |-> a.via \cup b.via \cup {"merge"}, nb |-> a.nb + b.nb]]
    [] op.op = "reload" -> [st EXCEPT ![op.r] = [st[op.p] EXCEPT !.via = @ \cup {op.m}]]
    [] OTHER -> st
Target(op) == CASE op.op \in {"new", "update"} -> op.p [] op.op \in {"merge", "reload"} -> op.r [] OTHER -> 0
=============================================================================
