------------------------------- MODULE Column -------------------------------
(***************************************************************************)
(* What a profile says about one column.                                   *)
(*                                                                         *)
(*  Summ(cells)   the summary of a column, defined directly from all of    *)
(*                its cells (this is the meaning of the statistics);       *)
(*  Join(a, b)    how two summaries are combined when a second batch       *)
(*                arrives or two profiles are merged;                      *)
(*                                                                         *)
(* ColumnMC.tla has TLC check that Join is exactly concatenation           *)
(* (Summ(x \o y) = Join(Summ(x), Summ(y))), associative, with the empty    *)
(* summary as identity, which is the design argument for "batching and     *)
(* merging never change what is reported".                                 *)
(*                                                                         *)
(* Numbers are 4 * value, so power sums are exact integers.                *)
(***************************************************************************)
EXTENDS Dates, SequencesExt, FiniteSetsExt, Functions

\* A bag is a function from elements to positive counts.
NoBag == <<>>     \* the function with empty domain
TallyAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE b @@ (x :> 1)
Tally(s) == FoldLeft(TallyAdd, NoBag, s)
TallySum(a, b) == [x \in (DOMAIN a \cup DOMAIN b) |->
                   (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]

--------------------------------------------------------------------------
\* Moments of a sequence of (scaled) numbers.
NoNum == [n |-> 0, mn |-> 0, mx |-> 0, s1 |-> 0, s2 |-> 0, s3 |-> 0, s4 |-> 0,
          z |-> 0, g |-> 0]
\* (sums TLC cannot compute are Lost, and then not compared)
Lost == 2000000000
Plus2(a, b) == IF a = Lost \/ b = Lost \/ a > 950000000 \/ b > 950000000 \/ a < -950000000 \/ b < -950000000
               THEN Lost ELSE a + b
Cube(v)  == IF v > 950 \/ v < -950 THEN Lost ELSE v * v * v
Fourth(v) == IF v > 170 \/ v < -170 THEN Lost ELSE v * v * v * v
NumAdd(a, v) ==
  [n |-> a.n + 1,
   mn |-> IF a.n = 0 \/ v < a.mn THEN v ELSE a.mn,
   mx |-> IF a.n = 0 \/ v > a.mx THEN v ELSE a.mx,
   s1 |-> a.s1 + v, s2 |-> a.s2 + v * v, s3 |-> Plus2(a.s3, Cube(v)),
   s4 |-> Plus2(a.s4, Fourth(v)),
   z |-> a.z + (IF v = 0 THEN 1 ELSE 0), g |-> a.g + (IF v < 0 THEN 1 ELSE 0)]
NumOf(vs) == FoldLeft(NumAdd, NoNum, vs)
NumJoin(a, b) ==
  IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a ELSE
  [n |-> a.n + b.n,
   mn |-> IF a.mn < b.mn THEN a.mn ELSE b.mn,
   mx |-> IF a.mx > b.mx THEN a.mx ELSE b.mx,
   s1 |-> a.s1 + b.s1, s2 |-> a.s2 + b.s2, s3 |-> Plus2(a.s3, b.s3), s4 |-> Plus2(a.s4, b.s4),
   z |-> a.z + b.z, g |-> a.g + b.g]
\* all values equal (then skewness and kurtosis are degenerate)
Flat(m) == m.n > 0 /\ m.mn = m.mx

--------------------------------------------------------------------------
\* What is to be known about one cell: whether it is a number, an integer, its
\* value (times 4), its significant figures, the formats by which it is a
\* date, when that is, and its characters.
FactsOf(c) ==
  LET nm == TLCEval(IsNumber(c)) fm == TLCEval(FormatsOf(c)) IN
  [num |-> nm, int |-> nm /\ IsInteger(c), val |-> TLCEval(IF nm THEN Num4(c) ELSE 0),
   sig |-> IF nm THEN SigFigs(c) ELSE 0, fm |-> fm, at |-> IF fm = {} THEN 0 ELSE WhenBy(c, fm),
   ch |-> CharSet(c)]
\* (ProfilerTrace has TLC look the facts up in a table instead)
Facts(c) == FactsOf(c)

\* The earliest and the latest of some dates: when, and the cells which say so.
DatesOf(ds) ==
  LET at == [i \in 1..Len(ds) |-> Facts(ds[i]).at]
      lo == Min({at[i] : i \in 1..Len(ds)})
      hi == Max({at[i] : i \in 1..Len(ds)})
  IN IF ds = <<>> THEN [n |-> 0, mn |-> 0, mx |-> 0, lo |-> {}, hi |-> {}]
     ELSE [n |-> Len(ds), mn |-> lo, mx |-> hi,
           lo |-> {ds[i] : i \in {k \in 1..Len(ds) : at[k] = lo}},
           hi |-> {ds[i] : i \in {k \in 1..Len(ds) : at[k] = hi}}]
DatesJoin(a, b) ==
  IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a ELSE
  [n |-> a.n + b.n,
   mn |-> Min({a.mn, b.mn}), mx |-> Max({a.mx, b.mx}),
   lo |-> IF a.mn < b.mn THEN a.lo ELSE IF b.mn < a.mn THEN b.lo ELSE a.lo \cup b.lo,
   hi |-> IF a.mx > b.mx THEN a.hi ELSE IF b.mx > a.mx THEN b.hi ELSE a.hi \cup b.hi]

--------------------------------------------------------------------------
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

Vals(cells, null(_)) == SelectSeq(cells, LAMBDA c : ~null(c))

\* numbers (times 4, from the origin) whose power sums TLC can compute
Near(x) == x \in -2000..2000
Close(x) == IF Near(x) THEN x ELSE 0
\* on, ot: origins from which numbers and text lengths are measured (0, or a
\* value close to all of them to keep power sums within TLC's integers)
SummAt(cells, null(_), on, ot) ==
  LET vs   == TLCEval(Vals(cells, null))
      nums == TLCEval(SelectSeq(vs, LAMBDA c : Facts(c).num))
      ints == TLCEval(SelectSeq(vs, LAMBDA c : Facts(c).int))
      dats == TLCEval(SelectSeq(vs, LAMBDA c : Facts(c).fm # {}))
  IN [ n     |-> Len(cells),
       v     |-> Len(vs),
       null  |-> [c \in {cells[i] : i \in {k \in 1..Len(cells) : null(cells[k])}} |->
                    {k - 1 : k \in {q \in 1..Len(cells) : cells[q] = c}}],
       ci    |-> Len(ints), cf |-> Len(nums), cd |-> Len(dats),
       int   |-> NumOf([i \in 1..Len(ints) |-> Close(Facts(ints[i]).val - on)]),
       flt   |-> NumOf([i \in 1..Len(nums) |-> Close(Facts(nums[i]).val - on)]),
       big   |-> \E i \in 1..Len(nums) : ~Near(Facts(nums[i]).val - on),
       txt   |-> NumOf([i \in 1..Len(vs) |-> 4 * Len(vs[i]) - ot]),
       dat   |-> DatesOf(dats),
       dfm   |-> Tally([i \in 1..Len(dats) |-> Facts(dats[i]).fm]),
       sig   |-> NumOf([i \in 1..Len(nums) |-> Facts(nums[i]).sig]),
       vocab |-> UNION {Facts(vs[i]).ch : i \in 1..Len(vs)},
       cats  |-> Tally(vs) ]

Summ(cells, null(_)) == SummAt(cells, null, 0, 0)
EmptySumm == Summ(<<>>, DefaultNull)

Join(a, b) ==
  [ n |-> a.n + b.n, v |-> a.v + b.v,
    null |-> [c \in (DOMAIN a.null \cup DOMAIN b.null) |->
                (IF c \in DOMAIN a.null THEN a.null[c] ELSE {}) \cup
                (IF c \in DOMAIN b.null THEN {k + a.n : k \in b.null[c]} ELSE {})],
    ci |-> a.ci + b.ci, cf |-> a.cf + b.cf, cd |-> a.cd + b.cd,
    int |-> NumJoin(a.int, b.int), flt |-> NumJoin(a.flt, b.flt),
    big |-> a.big \/ b.big,
    txt |-> NumJoin(a.txt, b.txt), dat |-> DatesJoin(a.dat, b.dat), dfm |-> TallySum(a.dfm, b.dfm),
    sig |-> NumJoin(a.sig, b.sig),
    vocab |-> a.vocab \cup b.vocab,
    cats |-> TallySum(a.cats, b.cats) ]

\* The type reported for the column: the first of datetime, int, float,
\* string (those which are not switched off) that every non-null value matches.
DTypeBy(s, off) ==
  IF s.v = 0 THEN "none"
  ELSE IF s.cd = s.v /\ "datetime" \notin off THEN "datetime"
  ELSE IF s.ci = s.v /\ "int" \notin off THEN "int"
  ELSE IF s.cf = s.v /\ "float" \notin off THEN "float"
  ELSE IF "string" \notin off THEN "string" ELSE "none"
DType(s) == DTypeBy(s, {})

\* The numbers the statistics of the reported type are about.
MainBy(s, dt) == CASE dt = "int" -> s.int [] dt = "float" -> s.flt
                   [] dt = "string" -> s.txt [] OTHER -> NoNum
Main(s) == MainBy(s, DType(s))

\* categorical: at most 10 distinct values, or at most one in five distinct.
Uniq(s) == Cardinality(DOMAIN s.cats)
IsCat(s) == Uniq(s) <= 10 \/ (s.v > 0 /\ 5 * Uniq(s) <= s.v)

SumSq(b) == FoldSet(LAMBDA x, acc : acc + b[x] * b[x], 0, DOMAIN b)
=============================================================================
