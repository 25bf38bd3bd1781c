---------------------------- MODULE ProfilerTrace ---------------------------
(***************************************************************************)
(* Checks traces recorded from the real structured profiler against        *)
(* Profiler.tla.  Each trace step carries an operation and what was        *)
(* observed; the specification state is advanced with Step and every       *)
(* reported quantity is compared with its definition over all the data the *)
(* profile has been given.  The verdict is total: each violated clause is  *)
(* printed as a FAIL line and checking goes on.                            *)
(*                                                                         *)
(* FAIL, seed, step, op, profile, column, clause, fresh, via               *)
(*   fresh: the clause held for every source profile before this step      *)
(***************************************************************************)
EXTENDS Relations, Diff, Views, Sampling, Json
CONSTANT File

Traces == JsonDeserialize(File)
\* the facts about every cell that occurs, computed once
StepCells(s) == UNION {{s.data[j][i] : i \in 1..Len(s.data[j])} : j \in 1..Len(s.data)}
Known == TLCEval([c \in UNION {UNION {StepCells(Traces[k].steps[i]) : i \in 1..Len(Traces[k].steps)} : k \in 1..Len(Traces)}
                   |-> FactsOf(c)])
ASSUME TLCSet(1, Known)
KnownFacts(c) == TLCGet(1)[c]

VARIABLES t, l, st, dirty, dead
vars == <<t, l, st, dirty, dead>>
Slots == 1..4

Init == /\ t \in 1..Len(Traces) /\ l = 1
        /\ st = [p \in Slots |-> Off]
        /\ dirty = [p \in Slots |-> {}]
        /\ dead = {}

Tr == Traces[t]
Ev == Tr.steps[l]

V(x) == <<1, x>>
NAN == <<0, 0>>
ABSENT == <<2, 0>>
NOWHERE == -2000000000      \* a position that is not a number

\* Origins from which the preset's numbers (times 4) and text lengths (times 4)
\* are measured, here and by the driver.
NumAt0 == IF Tr.cfg = "far" THEN 400000000 ELSE 0
LenAt0 == IF Tr.cfg = "long" THEN 4 * 255 ELSE 0
SumOf(p, j) == SummAt(p.h[j], LAMBDA c : IsNull(Tr.cfg, j, c), NumAt0, LenAt0)
\* the reported type: texts of more than 255 characters are told apart
TypeName(s, dt) == IF dt = "string" /\ s.txt.mx + LenAt0 > 4 * 255 THEN "text" ELSE dt
\* null cells by the labels of their rows
Labelled(nulls, ids) == [c \in DOMAIN nulls |-> {ids[k + 1] : k \in nulls[c]}]

\* A clause is a triple <<column, name, holds>>; column 0 is the table.
--------------------------------------------------------------------------
\* The reported moments, as raw power sums of 4 * value.
\* (Corrected for bias they need two, three and four values.)
Moments(m) ==
  LET need(k) == Tr.cfg # "bias" /\ m.n < k IN
  << V(m.s1),
     IF need(2) THEN NAN ELSE V(m.s2),
     IF need(3) THEN NAN ELSE IF Flat(m) THEN <<4, 0>> ELSE V(m.s3),
     IF need(4) THEN NAN ELSE IF Flat(m) THEN <<4, -3000>> ELSE V(m.s4) >>

\* the number of ordered pairs of values of which the first is a category and
\* the second is another value
Mixed(b, v) == FoldSet(LAMBDA x, acc : acc + b[x] * (v - b[x]), 0, DOMAIN b)
Bagged(pairs) == {<<pairs[i][1], pairs[i][2]>> : i \in 1..Len(pairs)}
AsBag(b) == {<<x, b[x]>> : x \in DOMAIN b}
Within(iv, num, den) == iv[1] = 1 /\ iv[2] * den <= num * 10000 /\ num * 10000 <= iv[3] * den
Sets(x) == {x[i] : i \in 1..Len(x)}

\* Histogram, quantiles, median, mode and median absolute deviation are
\* computed from about a thousand bins, so positions are accurate to Tol
\* thousandths of the range.  xs: 4 * the numbers; edges and positions come
\* as 4000 * value, cumulative counts as 1000 * count.
Tol == 6
MainSeq(dt, raw, null(_)) ==
  LET vs == Vals(raw, null) IN
  IF dt \in {"int", "float"} THEN [i \in 1..Len(vs) |-> Facts(vs[i]).val - NumAt0]
  ELSE [i \in 1..Len(vs) |-> 4 * Len(vs[i]) - LenAt0]
Below(xs, e)  == Cardinality({i \in 1..Len(xs) : 1000 * xs[i] < e})
UpTo(xs, e)   == Cardinality({i \in 1..Len(xs) : 1000 * xs[i] <= e})
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* twice the median of a sequence of integers
Median2(xs) == LET ys == SortSeq(xs, <) n == Len(xs) IN
               IF n % 2 = 1 THEN 2 * ys[(n + 1) \div 2] ELSE ys[n \div 2] + ys[n \div 2 + 1]
HistClauses(j, xs, c, one, no(_)) ==
  LET n  == Len(xs)
      mn == Min({xs[i] : i \in 1..n})  mx == Max({xs[i] : i \in 1..n})
      W  == (mx - mn) * Tol + 4
      k  == Len(c.ed)
      m2 == Median2(xs)
      d2 == Median2([i \in 1..n |-> Abs(2 * xs[i] - m2)])     \* 4 * the deviation
      tally == Tally(xs)
      most == Max({tally[x] : x \in DOMAIN tally})
  IN
  { <<j, "hist.total", c.cum[Len(c.cum)] = 1000 * n>>,
    <<j, "hist.lo", Abs(c.ed[1] - 1000 * mn) <= 2>>, <<j, "hist.hi", Abs(c.ed[k] - 1000 * mx) <= 2>>,
    <<j, "hist.edges", k = Len(c.cum) + 1 /\ \A i \in 1..(k - 1) : c.ed[i] <= c.ed[i + 1]>>,
    <<j, "hist.nonneg", c.cum[1] >= 0 /\ \A i \in 1..(Len(c.cum) - 1) : c.cum[i] <= c.cum[i + 1]>>,
    <<j, "hist.cum", \A i \in 2..(k - 1) : i <= Len(c.cum) + 1 =>
         /\ 1000 * Below(xs, c.ed[i] - W) <= c.cum[i - 1] + 2
         /\ c.cum[i - 1] - 2 <= 1000 * UpTo(xs, c.ed[i] + W)>>,
    <<j, "quant.mono", \A i \in 1..(Len(c.q) - 1) : c.q[i] <= c.q[i + 1]>>,
    \* the i-th of Q quantiles has about i/(Q+1) of the values below it
    <<j, "quant.rank", Len(c.q) = 3 /\ \A i \in 1..Len(c.q) :
         /\ Below(xs, c.q[i] - W) * (Len(c.q) + 1) <= i * n
         /\ UpTo(xs, c.q[i] + W) * (Len(c.q) + 1) >= i * n>>,
    <<j, "median", IF no("median") THEN c.med = NOWHERE ELSE Abs(2 * c.med - 1000 * m2) <= 2 * W>>,
    <<j, "mad", IF no("mad") THEN c.mad = NOWHERE ELSE Abs(2 * c.mad - 500 * d2) <= 2 * W * (IF Tr.cfg \in {"far", "long"} THEN 5 ELSE 1)>>,
    \* the mode of data which came in one batch (later batches are spread
    \* over the bins, so that only the range is certain then)
    <<j, "mode", IF no("mode") THEN c.mode = <<NOWHERE>> ELSE Len(c.mode) > 0 /\ \A i \in 1..Len(c.mode) :
         IF one THEN \E x \in DOMAIN tally : tally[x] = most /\ Abs(c.mode[i] - 1000 * x) <= W
         ELSE c.mode[i] >= 1000 * mn - W /\ c.mode[i] <= 1000 * mx + W>> }

ColClauses(j, s, c, raw, ids, null(_), ord, one, ct, off) ==
  LET dt == DTypeBy(s, off)
      m  == MainBy(s, dt)
      no(x) == Dis(off, x, dt)      \* switched off
      v  == s.v
      isnum == dt \in {"int", "float"}
      measured == dt = "string" \/ (isnum /\ ~s.big)
      bag == TLCEval(Heavy(Tr.cfg, s.cats, v))
      uq == IF ct.stop THEN ct.uc ELSE Cardinality(DOMAIN bag)
      cv == IF ct.stop THEN ct.sz ELSE v
      iscat == ~ct.stop /\ (uq <= 10 \/ (v > 0 /\ 5 * uq <= v))
  IN
  { <<j, "n",       c.n = s.n>>,
    <<j, "nullc",   c.nullc = s.n - s.v>>,
    <<j, "nulltypes", Sets(c.ntypes) = DOMAIN s.null /\ Len(c.ntypes) = Cardinality(DOMAIN s.null)>>,
    <<j, "nullidx", {<<c.null[i][1], Sets(c.null[i][2])>> : i \in 1..Len(c.null)} = AsBag(Labelled(s.null, ids))>>,
    <<j, "dtype",   c.dt = dt /\ ((dt = "string" /\ no("max")) \/ c.dname = TypeName(s, dt))>>,
    <<j, "repr",    (v > 0 /\ dt # "none") =>
                    c.repr = [i \in 1..4 |-> LET t4 == <<"datetime", "int", "float", "string">>[i] IN
                                IF t4 \in off THEN V(0) ELSE V(<<s.cd, s.ci, s.cf, v>>[i])]>>,
    <<j, "samples", Sets(c.samples) \subseteq (Sets(raw) \ DOMAIN s.null)>>,
    <<j, "order",   c.order = (IF "order" \in off THEN "none" ELSE ord)>> }
  \cup (IF "category" \in off THEN { <<j, "hascats", c.hascats = 0 /\ c.uniq = -1 /\ c.cat # 1>> } ELSE {
    <<j, "uniq",    c.uniq = uq /\ c.uratio = V(IF cv = 0 THEN 0 ELSE (1000 * uq) \div cv)>>,
    <<j, "iscat",   c.cat = (IF iscat THEN 1 ELSE 0)>> })
  \cup (IF "category" \in off THEN {} ELSE IF c.hascats = 1
        THEN { <<j, "cats",  Listing(Tr.cfg, bag, c.cats)>>,
               <<j, "catlist", Sets(c.catlist) = DOMAIN bag /\ Len(c.catlist) = Cardinality(DOMAIN bag)>>,
               <<j, "gini",  c.gini = (IF v = 0 THEN ABSENT ELSE V(Mixed(bag, v)))>>,
               <<j, "unal",  c.unal = (IF v = 0 THEN ABSENT ELSE IF v = 1 THEN V(0) ELSE V(Mixed(bag, v)))>> }
        ELSE { <<j, "hascats", ~iscat>> })
  \cup (IF dt # c.dt \/ ~measured THEN {} ELSE
        { <<j, "min", c.mn = (IF no("min") THEN ABSENT ELSE V(m.mn))>>,
          <<j, "max", c.mx = (IF no("max") THEN ABSENT ELSE V(m.mx))>>,
          <<j, "sum", c.sum = V(IF no("sum") THEN 0 ELSE m.s1)>>,
          <<j, "mean", ~no("sum") => c.mom[1] = V(m.s1)>>,
          <<j, "var",  c.mom[2] = (IF no("variance") THEN NAN ELSE Moments(m)[2])>>,
          <<j, "std",  c.sd = (IF no("variance") \/ (m.n < 2 /\ Tr.cfg # "bias") THEN NAN ELSE V(1))>>,
          <<j, "skew", m.s3 = Lost \/ c.mom[3] = (IF no("skewness") THEN NAN ELSE Moments(m)[3])>>,
          <<j, "kurt", m.s4 = Lost \/ m.s3 = Lost \/ c.mom[4] = (IF no("kurtosis") THEN NAN ELSE Moments(m)[4])>>,
          <<j, "zeros", isnum => c.z = V(IF NumAt0 = 0 /\ ~no("zeros") THEN m.z ELSE 0)>>,
          <<j, "negs",  isnum => c.g = V(IF NumAt0 = 0 /\ ~no("negs") THEN m.g ELSE 0)>>,
          <<j, "hist.present", (Len(c.ed) > 1) = ~no("hist")>> }
        \cup (IF Len(c.ed) < 2 THEN {} ELSE
               HistClauses(j, MainSeq(dt, raw, null), c, one, no)))
  \cup (IF dt = "string" /\ c.dt = dt THEN { <<j, "vocab", IF "vocab" \in off THEN c.vocab = <<>> ELSE Sets(c.vocab) = s.vocab /\ Len(c.vocab) = Cardinality(s.vocab)>> } ELSE {})
  \cup (IF dt = "datetime" /\ c.dt = dt
        THEN { <<j, "dmin", c.dmin \in s.dat.lo>>, <<j, "dmax", c.dmax \in s.dat.hi>>,
               \* every date is read by a listed format, every listed format reads some date
               <<j, "fmt", /\ \A F \in DOMAIN s.dfm : F \cap Sets(c.fmt) # {}
                           /\ \A f \in Sets(c.fmt) : \E F \in DOMAIN s.dfm : f \in F
                           /\ Len(c.fmt) = Cardinality(Sets(c.fmt))>> } ELSE {})
  \cup (IF dt = "float" /\ c.dt = dt /\ "prec" \in off THEN { <<j, "prec.n", c.prec[5] = ABSENT /\ c.prec[1] = ABSENT /\ c.prec[2] = ABSENT>> }
        ELSE IF dt = "float" /\ c.dt = dt
        THEN { <<j, "prec.min", c.prec[1] = V(s.sig.mn)>>, <<j, "prec.max", c.prec[2] = V(s.sig.mx)>>,
               <<j, "prec.spread", c.psd = 1>>,
               <<j, "prec.n", c.prec[5] = V(s.sig.n)>>,
               <<j, "prec.mean", s.sig.n <= 60 => Within(c.prec[3], s.sig.s1, s.sig.n)>>,
               <<j, "prec.var", (s.sig.n \in 2..60) =>
                   Within(c.prec[4], s.sig.n * s.sig.s2 - s.sig.s1 * s.sig.s1, s.sig.n * (s.sig.n - 1))>> } ELSE {})

\* the report keys columns by their own name
SchemaOf(cols) == {<<cols[j], {k - 1 : k \in {q \in 1..Len(cols) : cols[q] = cols[j]}}>> : j \in 1..Len(cols)}

\* distinct rows are counted exactly, except that under the option to estimate
\* their number a few may be taken for others
Missed(n) == IF Tr.cfg # "hll" \/ n < 3 THEN {0} ELSE IF n < 12 THEN {0, 1} ELSE {0, 1, 2}
TableClauses(p, o) ==
  LET g == GlobalOf(p, LAMBDA j, c : IsNull(Tr.cfg, j, c)) IN
  { <<0, "rows", o.rows = g.rows>>, <<0, "used", o.used = g.used>>,
    <<0, "ncols", o.ncols = g.ncols /\ Len(o.cols) = g.ncols>>,
    <<0, "hasnull", g.clear => o.hasnull = (IF NoNullRows(p.off) THEN ABSENT ELSE V(g.hasnull))>>,
    <<0, "isnull", g.clear => o.isnull = (IF NoNullRows(p.off) THEN ABSENT ELSE V(g.isnull))>>,
    <<0, "rowuniq", IF NoUniqRows(p.off) THEN o.uniq = ABSENT ELSE \E d \in Missed(g.uniq) : o.uniq = V(g.uniq - d)>>,
    <<0, "rowdup", IF NoUniqRows(p.off) THEN o.dup = ABSENT
                   ELSE \E d \in Missed(g.uniq) : o.dup = V(g.rows - g.uniq + d) /\ o.uniq = V(g.uniq - d)>>,
    <<0, "schema", {<<o.schema[i][1], Sets(o.schema[i][2])>> : i \in 1..Len(o.schema)} = SchemaOf(p.cols)>>,
    <<0, "names", Len(o.cols) = g.ncols => \A j \in 1..g.ncols : o.cols[j].name = p.cols[j]>> }

\* Pairs of columns.  sm: the summaries of the columns.
Complete(s) == s.n > 1 /\ s.v = s.n /\ s.cf = s.v
Categoric(s) == IsCat(s)
ChiOk(s, u, x) ==
  IF ~IsCat(s) \/ ~IsCat(u) THEN x = NAN
  ELSE LET cs == DOMAIN s.cats \cup DOMAIN u.cats  k == Cardinality(cs) IN
       IF k <= 1 THEN x = NAN
       ELSE IF s.v = 0 \/ u.v = 0 THEN x = <<3, 1>>            \* infinite
       ELSE IF s.v > 50 \/ u.v > 50 THEN TRUE                   \* beyond TLC's integers
       ELSE LET e == Chi100(s.cats, s.v, u.cats, u.v) IN x[1] = 1 /\ x[2] >= e - 1 /\ x[2] <= e + k + 1
CorrOk(x, y, v) ==
  LET vx == Cov(x, x)  vy == Cov(y, y)
  IN IF vx = 0 \/ vy = 0 THEN v = NAN ELSE v = V(Cov(x, y))
PairClauses(p, o, sm) ==
  LET n == Len(p.cols)
      nl(j, c) == IsNull(Tr.cfg, j, c)
      num == {j \in 1..n : Complete(sm[j])}
      counted == {j \in 1..n : sm[j].v < sm[j].n}
      anum == {j \in 1..n : sm[j].v > 0 /\ sm[j].cf = sm[j].v /\ sm[j].cd = 0}
      allnum == \A j \in 1..n : sm[j].v = 0 \/ j \in anum
  IN
  (IF o.chi2 = <<>> THEN { <<0, "chi2", n = 0 \/ "chi2" \in p.off>> } ELSE IF "chi2" \in p.off THEN { <<0, "chi2", FALSE>> } ELSE
   { <<0, "chi2", \A i \in 1..n : \A j \in 1..n :
        IF i = j THEN o.chi2[i][i] = (IF IsCat(sm[i]) THEN V(0) ELSE NAN)
        ELSE o.chi2[i][j] = o.chi2[j][i] /\ ChiOk(sm[i], sm[j], o.chi2[i][j])>> })
  \cup (IF Tr.cfg # "corr" \/ n < 2 \/ Cardinality(num) < n THEN {} ELSE
   { <<0, "corr", o.corr # <<>> /\ \A i \in 1..n : \A j \in i..n :
         CorrOk(NumAt(p, i), NumAt(p, j), o.corr[i][j]) /\ o.corr[j][i] = o.corr[i][j]>> })
  \cup (IF Tr.cfg # "nrep" THEN {} ELSE
   { <<j, "nrep.none", o.nrep[j] = <<>> >> : j \in (1..n) \ counted } \cup
   { <<j, "nrep.prior", o.nrep[j] # <<>> /\ o.nrep[j].prior = <<V(sm[j].v), V(sm[j].n - sm[j].v)>> >> : j \in counted } \cup
   { <<j, "nrep.sum", o.nrep[j] # <<>> /\ Len(o.nrep[j].null) = n /\ \A k \in anum \ {j} :
        LET e == SumWhere(p, j, k, nl) IN
        /\ o.nrep[j].null[k] = V(e) /\ o.nrep[j].nullmean[k] = V(e)
        /\ o.nrep[j].rest[k] = (IF sm[j].v = 0 THEN NAN ELSE V(Main(sm[k]).s1 - e))
        /\ o.nrep[j].restmean[k] = o.nrep[j].rest[k]>> : j \in (IF allnum THEN counted ELSE {}) })

ProfileClauses(p, o) ==
  TableClauses(p, o) \cup
  (IF Len(o.cols) # Len(p.cols) THEN {} ELSE
   LET sm == TLCEval([j \in 1..Len(p.cols) |-> SumOf(p, j)]) IN
   (IF Tr.pairs = 1 THEN PairClauses(p, o, sm) ELSE {}) \cup
   UNION { ColClauses(j, sm[j], o.cols[j], p.h[j], IF p.smp = <<>> THEN p.ids ELSE p.smp.lab[j], LAMBDA x : IsNull(Tr.cfg, j, x), p.ord[j].o, Len(p.bs) = 1, p.ct[j], p.off)
           : j \in 1..Len(p.cols) })

--------------------------------------------------------------------------
\* Comparing profile p with profile q (d: what was reported).
SameTable(p, q) == SchemaOf(p.cols) = SchemaOf(q.cols)
DiffCol(j, s, u, x, y, d) ==
  LET sn == Labelled(s.null, x.ids)  un == Labelled(u.null, y.ids)
      dt == DType(s) both == IsCat(s) /\ IsCat(u) ms == Main(s) mu == Main(u) IN
  { <<j, "diff.n", NumDiff(d.n, s.n, u.n)>>, <<j, "diff.nullc", NumDiff(d.nullc, s.n - s.v, u.n - u.v)>>,
    <<j, "diff.nullratio", RatioDiff(d.nullr, s.n - s.v, s.n, u.n - u.v, u.n)>>,
    <<j, "diff.nulltypes", SetDiff(d.ntypes, DOMAIN s.null, DOMAIN u.null)>>,
    <<j, "diff.nullidx",
        \* positions per spelling: only the first has, both have, only the second has
        IF DOMAIN s.null \cup DOMAIN u.null = {} THEN d.nullidx.same = 1 ELSE
        /\ d.nullidx.same = 0
        /\ {<<e[1], Elems(e[2])>> : e \in Elems(d.nullidx.a)} = {<<c, sn[c]>> : c \in DOMAIN s.null \ DOMAIN u.null}
        /\ {<<e[1], Elems(e[2])>> : e \in Elems(d.nullidx.b)} = {<<c, un[c]>> : c \in DOMAIN u.null \ DOMAIN s.null}
        /\ {e[1] : e \in Elems(d.nullidx.both)} = DOMAIN s.null \cap DOMAIN u.null
        /\ \A e \in Elems(d.nullidx.both) : SetDiff(e[2], sn[e[1]], un[e[1]])>>,
    <<j, "diff.order", StrDiff(d.order, x.ord[j].o, y.ord[j].o)>>,
    <<j, "diff.categorical", StrDiff(d.cat, IF IsCat(s) THEN "1" ELSE "0", IF IsCat(u) THEN "1" ELSE "0")>>,
    <<j, "diff.uniq", NumDiff(d.uniq, Cardinality(DOMAIN s.cats), Cardinality(DOMAIN u.cats))>>,
    <<j, "diff.dtype", StrDiff(d.dt, DType(s), DType(u)) \/ (d.dt = <<"absent">> /\ s.v = 0 /\ u.v = 0)>> }
  \cup (IF s.v = 0 \/ u.v = 0 THEN {} ELSE
  { <<j, "diff.uratio", RatioDiff(d.uratio, Cardinality(DOMAIN s.cats), s.v, Cardinality(DOMAIN u.cats), u.v)>>,
    <<j, "diff.repr", RatioDiff(d.repr[1], s.cd, s.v, u.cd, u.v) /\ RatioDiff(d.repr[2], s.ci, s.v, u.ci, u.v)
                      /\ RatioDiff(d.repr[3], s.cf, s.v, u.cf, u.v) /\ d.repr[4] = SAME>> })
  \cup (IF ~both THEN { <<j, "diff.cats", d.hascats = 0>> } ELSE
  { <<j, "diff.cats", d.hascats = 1 /\ SetDiff(d.cats, DOMAIN s.cats, DOMAIN u.cats)>>,
    <<j, "diff.catcount", d.hascats = 1 /\
        LET all == DOMAIN s.cats \cup DOMAIN u.cats
            at(b, c) == IF c \in DOMAIN b THEN b[c] ELSE 0 IN
        Elems(d.catcount) = {<<c, at(s.cats, c) - at(u.cats, c)>> : c \in all}>>,
    <<j, "diff.chi2", d.hascats = 1 /\ d.chi.df = V(Cardinality(DOMAIN s.cats \cup DOMAIN u.cats) - 1)
        /\ d.chi.p = 1 /\ ChiOk(s, u, d.chi.x)>> })
  \cup (IF DType(s) # DType(u) \/ d.dt # <<"unchanged">> THEN {} ELSE
        (IF dt \notin {"int", "float", "string"} \/ (dt # "string" /\ (s.big \/ u.big)) THEN {} ELSE
        { <<j, "diff.min", NumDiff(d.mn, ms.mn, mu.mn)>>, <<j, "diff.max", NumDiff(d.mx, ms.mx, mu.mx)>>,
          <<j, "diff.sum", NumDiff(d.sum, ms.s1, mu.s1)>>,
          <<j, "diff.mean", d.mean = (IF ms.s1 * mu.n = mu.s1 * ms.n THEN d.mean ELSE V(ms.s1 * mu.n - mu.s1 * ms.n))
                            /\ (ms.s1 * mu.n = mu.s1 * ms.n => d.mean \in {SAME, V(0)})>>,
          <<j, "diff.agrees", \A i \in 1..Len(d.agree) : Agrees(d.agree[i])>>,
          <<j, "diff.mode", d.mode = 1>>,
          <<j, "diff.psi", (d.psi[1] = 1 => d.psi[2] >= 0) /\ (x = y /\ dt # "string" => d.psi = V(0))>>,
          <<j, "diff.ttest", (ms.n >= 2 /\ mu.n >= 2 /\ ~(Flat(ms) /\ Flat(mu))) =>
              d.t = << V(ms.s1 * mu.n - mu.s1 * ms.n), V(Min({ms.n, mu.n}) - 1), 1 >> >> })
        \cup (IF dt # "string" THEN {} ELSE { <<j, "diff.vocab", SetDiff(d.vocab, s.vocab, u.vocab)>> })
        \cup (IF dt # "datetime" THEN {} ELSE
          { <<j, "diff.dmin", NumDiff(d.dmin, s.dat.mn, u.dat.mn)>>,
            <<j, "diff.dmax", NumDiff(d.dmax, s.dat.mx, u.dat.mx)>>, <<j, "diff.format", d.fmt = 1>> }))

DiffClauses(p, q, d) ==
  LET nl(j, c) == IsNull(Tr.cfg, j, c)
      g == GlobalOf(p, nl)  h == GlobalOf(q, nl)
      A == SchemaOf(p.cols) B == SchemaOf(q.cols)
      na == {e[1] : e \in A} nb == {e[1] : e \in B}
      same == SameTable(p, q)
  IN
  { <<0, "diff.rows", NumDiff(d.rows, g.rows, h.rows)>>, <<0, "diff.used", NumDiff(d.used, g.rows, h.rows)>>,
    <<0, "diff.ncols", NumDiff(d.ncols, g.ncols, h.ncols)>>,
    <<0, "diff.hasnull", RatioDiff(d.hasnull, g.hasnull, g.rows, h.hasnull, h.rows)>>,
    <<0, "diff.isnull", RatioDiff(d.isnull, g.isnull, g.rows, h.isnull, h.rows)>>,
    <<0, "diff.rowuniq", RatioDiff(d.rowuniq, g.uniq, g.rows, h.uniq, h.rows)>>,
    <<0, "diff.rowdup", NumDiff(d.dup, g.rows - g.uniq, h.rows - h.uniq)>>,
    <<0, "diff.schema", d.schema.same = 0 /\ Elems(d.schema.a) = na \ nb /\ Elems(d.schema.b) = nb \ na
          /\ Elems(d.schema.both) = na \cap nb
          /\ Elems(d.schema.moved) = {c \in na \cap nb : {e[2] : e \in {e \in A : e[1] = c}} # {e[2] : e \in {e \in B : e[1] = c}}}>>,
    <<0, "diff.matrix", \A k \in 1..Len(d.mats) : MatAgrees(d.mats[k])>>,
    <<0, "diff.columns", Len(d.cols) = (IF same THEN Len(p.cols) ELSE 0)>> }
  \cup (IF ~same \/ Len(d.cols) # Len(p.cols) THEN {} ELSE
        UNION { DiffCol(j, SumOf(p, j), SumOf(q, j), p, q, d.cols[j])
                : j \in 1..Len(p.cols) })

--------------------------------------------------------------------------
\* A view v of profile p: o.base, o.view are the leaves of the plain report and
\* of the view, each with its column (0: none), its path and (in the view)
\* whether its value renders the one of the plain report.
ViewClauses(p, v, o) ==
  LET n == Len(p.cols)
      alike(x, y) == \E i \in 1..n : \E j \in 1..n : x = "@" \o ToString(i) /\ y = "@" \o ToString(j) /\ p.cols[i] = p.cols[j]
      dts == TLCEval([j \in 1..n |-> DTypeBy(SumOf(p, j), p.off)])
      dt(j) == dts[j]
      base == Elems(o.base)
      out(b) == Omitted(v, b.path, alike) \/ (v.rdf = 1 /\ Disabled(p.off, dt, b.c, b.path))
      colout(j) == Omitted(v, <<"data_stats", "@" \o ToString(j)>>, alike)
      dsout == Omitted(v, <<"data_stats">>, alike)
      g == Groups(v.g)
      \* (a single group has no quantile)
      none(b) == g = 1 /\ Len(b.path) = 5 /\ b.path[4] = "quantiles"
      want == TLCEval({b.path : b \in {b \in base : ~out(b) /\ ~none(b)}})
  IN
  { <<0, "view.keys", {x.path : x \in Elems(o.view)} = want>>,
    <<0, "view.values", \A i \in 1..Len(o.view) : o.view[i].ok = 1>>,
    <<0, "view.columns", IF dsout THEN o.cols = <<>> ELSE o.cols = [j \in 1..n |-> IF colout(j) THEN 0 ELSE 1]>>,
    <<0, "view.quantiles", \A j \in 1..Len(o.q) : o.q[j] = <<>> \/
          (Len(o.q[j]) = g - 1 /\ \A i \in 1..(g - 1) : RankOf(i, g) >= o.q[j][i][1] /\ RankOf(i, g) <= o.q[j][i][2])>>,
    <<0, "view.json", o.json = 1>>,
    <<0, "view.asked", o.asked = 1>> }

--------------------------------------------------------------------------
Sources(op) == CASE op.op = "update" -> {op.p} [] op.op = "merge" -> {op.p, op.q}
                 [] op.op = "reload" -> {op.p} [] OTHER -> {}
Uses(op) == Sources(op) \cup (IF op.op \in {"report", "diff", "view"} THEN {op.p, op.q} ELSE {})

ViaStr(v) == (IF "merge" \in v THEN "M" ELSE "") \o (IF "pickle" \in v THEN "P" ELSE "")
             \o (IF "json" \in v THEN "J" ELSE "")

Say(pid, col, clause, fresh, via) ==
  PrintT(<<"FAIL", Tr.seed, l, Ev.op, pid, col, clause, fresh, via>>)

\* The sample, as far as it can be told from what the profile reports: in
\* traces of kind 1 the last column has missing values only, so their labels
\* are those of the rows looked at (in any column); in traces of kind 2 the
\* values of a batch differ, so each column lists its sample.
TakeOf(op) ==
  IF Tr.sampling = 0 \/ op.op \notin {"new", "update"} \/ BatchLen(op) = 0 THEN <<>> ELSE
  LET n == Len(op.data)
      labs == IF op.op = "new" THEN op.ids ELSE Placed(st[op.p].ids, op.ids)
      at(j) == {i \in 1..Len(labs) : labs[i] \in Sets(op.nl[j]) \/ op.data[j][i] \in Sets(op.nv[j])} IN
  IF Len(op.nl) # n THEN <<>> ELSE
  [j \in 1..n |-> IF Tr.sampling = 1 THEN at(n) ELSE at(j)]
SampleClauses(p, op) ==
  LET k == IF op.k > 0 THEN op.k ELSE p.smp.k  m == IF op.mt > 0 THEN op.mt ELSE p.smp.mt
      true == [j \in 1..Len(op.take) |-> {i \in op.take[j] : ~IsNull(Tr.cfg, j, op.data[j][i])}] IN
  { <<0, "sample.size", RightSize(k, m, BatchLen(op), op.take, true)>>,
    <<0, "sample.rows", RightRows(m, op.take)>>,
    <<0, "sample.seed", op.again # 0>> }

Advance ==
  LET op == [Ev EXCEPT !.take = TakeOf(Ev)]
      tg == Target(op)
      acc == Accepts(st, op)
      nst == Step(st, op, Tr.cfg)
      skip == Uses(op) \cap dead # {} \/ (Tr.sampling > 0 /\ op.op \in {"new", "update"} /\ BatchLen(op) > 0 /\ op.take = <<>>)
      wasok == op.ok = 1
      agree == acc = wasok
      judge == ~skip /\ agree /\ acc /\ tg # 0 /\ op.obs # <<>> /\ op.op # "report"
      via == IF tg = 0 THEN "" ELSE ViaStr(nst[tg].via)
      cl == TLCEval(IF judge THEN ProfileClauses(nst[tg], op.obs) \cup (IF Sampled(op) THEN SampleClauses(nst[tg], op) ELSE {}) ELSE {})
      bad == {<<c[1], c[2]>> : c \in {x \in cl : ~x[3]}}
      old == UNION {dirty[s] : s \in Sources(op)}
  IN
  /\ st' = IF skip \/ ~agree THEN (IF tg = 0 THEN st ELSE [nst EXCEPT ![tg] = Off]) ELSE nst
  /\ dead' = IF tg = 0 THEN dead
             ELSE IF skip \/ ~agree THEN dead \cup {tg}
             ELSE IF op.op = "update" \/ ~acc THEN dead ELSE dead \ {tg}
  /\ dirty' = IF judge THEN [dirty EXCEPT ![tg] = bad] ELSE dirty
  /\ \A b \in bad : Say(tg, b[1], b[2], b \notin old, via)
  /\ (~skip /\ acc /\ ~wasok) => Say(tg, 0, "accept", TRUE, via)
  /\ (~skip /\ ~acc /\ wasok) => Say(tg, 0, "reject", TRUE, via)
  /\ (~skip /\ ~acc /\ ~wasok /\ op.tchg = 1) => Say(tg, 0, "reject.inert", TRUE, via)
  /\ \A i \in 1..Len(op.chg) : op.chg[i] \notin dead => Say(op.chg[i], 0, "interference", TRUE, ViaStr(st[op.chg[i]].via))
  /\ (~skip /\ op.op = "diff" /\ wasok /\ op.diff # <<>>) =>
       \A c \in DiffClauses(st[op.p], st[op.q], op.diff) : ~c[3] =>
          Say(op.p, c[1], c[2], {<<c[1], x>> : x \in {e[2] : e \in dirty[op.p] \cup dirty[op.q]}} = {}, "")
  /\ (~skip /\ op.op = "view" /\ wasok) =>
       \A c \in ViewClauses(st[op.p], op, op.seen) : ~c[3] => Say(op.p, c[1], c[2], TRUE, ViaStr(st[op.p].via))
  /\ (op.op = "big" /\ wasok) =>
       LET k == 2 * DefaultSize(op.g, op.rdf) IN op.seen # <<k, k, 2 * op.g, k, k>> => Say(0, 0, "sample.default", TRUE, "")
  /\ \A i \in 1..Len(op.stale) : Say(op.stale[i], 0, "view.snapshot", TRUE, "")
  /\ (~skip /\ op.op = "reload" /\ wasok /\ op.same = 0) => Say(tg, 0, "roundtrip", TRUE, via)

Next == /\ l <= Len(Tr.steps) /\ l' = l + 1 /\ t' = t /\ Advance
View == <<t, l>>
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 1, 0, Traces)
=============================================================================
