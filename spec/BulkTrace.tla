------------------------------ MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Checks traces recorded from real profiles of long tables against        *)
(* Bulk.tla.                                                               *)
(***************************************************************************)
EXTENDS Bulk, Json
CONSTANT File
Traces == JsonDeserialize(File)
RunCells(s) == UNION {{s.runs[i].row[j] : j \in 1..s.nc} : i \in 1..Len(s.runs)}
Known == TLCEval([c \in UNION {UNION {RunCells(Traces[k].steps[i]) : i \in 1..Len(Traces[k].steps)} : k \in 1..Len(Traces)}
                   |-> FactsOf(c)])
ASSUME TLCSet(1, Known)
KnownFacts(c) == TLCGet(1)[c]

VARIABLES t, l, st, dead
Slots == 1..3
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = [p \in Slots |-> Off] /\ dead = {}
Tr == Traces[t]
Ev == Tr.steps[l]
V(x) == <<1, x>>
NAN == <<0, 0>>
ABSENT == <<2, 0>>
Sets(x) == {x[i] : i \in 1..Len(x)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Bagged(pairs) == {<<pairs[i][1], pairs[i][2]>> : i \in 1..Len(pairs)}
AsBag(b) == {<<x, b[x]>> : x \in DOMAIN b}
\* ordered pairs of different values
Mixed(b, v) == FoldSet(LAMBDA x, acc : acc + b[x] * (v - b[x]), 0, DOMAIN b)

Moments(m) ==
  LET need(k) == Tr.cfg # "bias" /\ m.n < k IN
  << V(m.s1), IF need(2) THEN NAN ELSE V(m.s2),
     IF need(3) THEN NAN ELSE IF m.mn = m.mx THEN <<4, 0>> ELSE V(m.s3),
     IF need(4) THEN NAN ELSE IF m.mn = m.mx THEN <<4, -3000>> ELSE V(m.s4) >>

\* as in ProfilerTrace: positions are accurate to Tol thousandths of the range
Tol == 6
HistClauses(j, B, S, f(_), c, one) ==
  LET n == Total(B, S)
      mn == Min({f(x) : x \in S})  mx == Max({f(x) : x \in S})
      W == (mx - mn) * Tol + 4
      k == Len(c.ed)
      below(e) == Total(B, {x \in S : 1000 * f(x) < e})
      upto(e) == Total(B, {x \in S : 1000 * f(x) <= e})
      m2 == WMedian2(B, S, f)
      d2 == WMedian2(B, S, LAMBDA x : Abs(2 * f(x) - m2))
      wt(v) == Total(B, {x \in S : f(x) = v})
      most == Max({wt(f(x)) : x \in S})
  IN
  { <<j, "hist.total", c.cum[Len(c.cum)] = 1000 * n>>,
    <<j, "hist.lo", Abs(c.ed[1] - 1000 * mn) <= 2>>, <<j, "hist.hi", Abs(c.ed[k] - 1000 * mx) <= 2>>,
    <<j, "hist.edges", k = Len(c.cum) + 1 /\ \A i \in 1..(k - 1) : c.ed[i] <= c.ed[i + 1]>>,
    <<j, "hist.nonneg", c.cum[1] >= 0 /\ \A i \in 1..(Len(c.cum) - 1) : c.cum[i] <= c.cum[i + 1]>>,
    <<j, "hist.cum", \A i \in 2..(k - 1) : i <= Len(c.cum) + 1 =>
         /\ 1000 * below(c.ed[i] - W) <= c.cum[i - 1] + 2
         /\ c.cum[i - 1] - 2 <= 1000 * upto(c.ed[i] + W)>>,
    <<j, "quant.rank", Len(c.q) = 3 /\ \A i \in 1..Len(c.q) :
         /\ below(c.q[i] - W) * (Len(c.q) + 1) <= i * n
         /\ upto(c.q[i] + W) * (Len(c.q) + 1) >= i * n>>,
    <<j, "median", Abs(2 * c.med - 1000 * m2) <= 2 * W>>,
    <<j, "mad", Abs(2 * c.mad - 500 * d2) <= 2 * W>>,
    <<j, "mode", Len(c.mode) > 0 /\ \A i \in 1..Len(c.mode) :
         IF one THEN \E x \in S : wt(f(x)) = most /\ Abs(c.mode[i] - 1000 * f(x)) <= W
         ELSE c.mode[i] >= 1000 * mn - W /\ c.mode[i] <= 1000 * mx + W>> }

ColClauses(j, p, c) ==
  LET B == TLCEval(CellBag(p.runs, j))
      s == TLCEval(WSumm(B, DefaultNull))
      dt == DType(s)
      m == MainBy(s, dt)
      v == s.v
      uq == Cardinality(DOMAIN s.cats)
      iscat == uq <= 10 \/ 5 * uq <= v
      isnum == dt \in {"int", "float"}
      S == DOMAIN s.cats
  IN
  { <<j, "n", c.n = s.n>>, <<j, "nullc", c.nullc = s.n - s.v>>,
    <<j, "nulltypes", Sets(c.ntypes) = DOMAIN s.null>>,
    <<j, "nullidx", Bagged(c.nulln) = AsBag(s.null) /\ c.nullin = 1>>,
    <<j, "dtype", c.dt = dt>>,
    <<j, "repr", v > 0 => \A i \in 1..4 : (i = 1 /\ j \in p.vague) \/ c.repr[i] = V(<<s.cd, s.ci, s.cf, v>>[i])>>,
    <<j, "samples", Sets(c.samples) \subseteq S>>,
    <<j, "uniq", c.uniq = uq /\ c.uratio = V(IF v = 0 THEN 0 ELSE (1000 * uq) \div v)>>,
    <<j, "iscat", c.cat = (IF iscat THEN 1 ELSE 0)>>,
    <<j, "cats", c.hascats = 1 => Bagged(c.cats) = AsBag(s.cats) /\ Len(c.cats) = uq>>,
    <<j, "gini", (c.hascats = 1 /\ v <= 40000) => c.gini = (IF v = 0 THEN ABSENT ELSE V(Mixed(s.cats, v)))>>,
    <<j, "unal", (c.hascats = 1 /\ v <= 40000) => c.unal = (IF v = 0 THEN ABSENT ELSE IF v = 1 THEN V(0) ELSE V(Mixed(s.cats, v)))>> }
  \cup (IF dt # c.dt \/ ~(isnum \/ (dt = "string" /\ ~s.long)) THEN {} ELSE
        { <<j, "min", c.mn = V(m.mn)>>, <<j, "max", c.mx = V(m.mx)>>, <<j, "sum", c.sum = V(m.s1)>>,
          <<j, "mean", c.mom[1] = V(m.s1)>>, <<j, "var", c.mom[2] = Moments(m)[2]>>,
          <<j, "std", c.sd = (IF m.n < 2 /\ Tr.cfg # "bias" THEN NAN ELSE V(1))>>,
          <<j, "skew", c.mom[3] = Moments(m)[3]>>, <<j, "kurt", c.mom[4] = Moments(m)[4]>>,
          <<j, "zeros", isnum => c.z = V(m.z)>>, <<j, "negs", isnum => c.g = V(m.g)>>,
          <<j, "hist.present", Len(c.ed) > 1>> }
        \cup (IF Len(c.ed) < 2 THEN {}
              ELSE HistClauses(j, B, S, LAMBDA x : IF isnum THEN Facts(x).val ELSE 4 * Len(x), c, p.nb = 1)))
  \cup (IF dt = "string" /\ c.dt = dt THEN { <<j, "vocab", Sets(c.vocab) = s.vocab>> } ELSE {})
  \cup (IF dt = "datetime" /\ c.dt = dt
        THEN { <<j, "dmin", c.dmin \in s.dat.lo>>, <<j, "dmax", c.dmax \in s.dat.hi>> } ELSE {})
  \cup (IF dt = "float" /\ c.dt = dt
        THEN { <<j, "prec.min", p.pn[j] = s.sig.n => c.prec[1] = V(s.sig.mn)>>,
               <<j, "prec.max", p.pn[j] = s.sig.n => c.prec[2] = V(s.sig.mx)>>,
               <<j, "prec.spread", c.psd = 1>>, <<j, "prec.n", c.prec[5] = V(p.pn[j])>> } ELSE {})

\* the column of numbers that differ from row to row
RampClauses(j, p, c) ==
  LET rs == Sets(p.ramps)
      uq == FoldSet(LAMBDA x, a : a + x[2], 0, rs)
      n == RowsIn(p.runs)
      iscat == uq <= 10 \/ 5 * uq <= n IN
  { <<j, "n", c.n = n>>, <<j, "nullc", c.nullc = 0>>, <<j, "dtype", c.dt = "int">>,
    <<j, "min", c.mn = V(4 * Min({x[1] : x \in rs}))>>, <<j, "max", c.mx = V(4 * Max({x[1] + x[2] - 1 : x \in rs}))>>,
    <<j, "uniq", c.uniq = uq>>, <<j, "iscat", c.cat = (IF iscat THEN 1 ELSE 0)>>,
    <<j, "repr", c.repr[2] = V(n)>>, <<j, "zeros", c.z = V(0)>>,
    <<j, "hist.total", Len(c.cum) > 0 /\ c.cum[Len(c.cum)] = 1000 * n>> }

Missed(n) == IF Tr.cfg # "hll" \/ n < 3 THEN {0} ELSE IF n < 12 THEN {0, 1} ELSE {0, 1, 2}
TableClauses(p, o) ==
  LET w == WRows(p.runs, p.nc, DefaultNull)
      ramp == p.ramps # <<>>
      uniq == IF ramp THEN FoldSet(LAMBDA x, a : a + x[2], 0, Sets(p.ramps)) ELSE w.uniq IN
  { <<0, "rows", o.rows = w.rows>>, <<0, "used", o.used = w.rows>>,
    <<0, "ncols", o.ncols = p.nc + (IF ramp THEN 1 ELSE 0) /\ Len(o.cols) = o.ncols>>,
    <<0, "hasnull", o.hasnull = V(w.hasnull)>>, <<0, "isnull", o.isnull = V(IF ramp THEN 0 ELSE w.isnull)>>,
    <<0, "rowuniq", \E d \in Missed(uniq) : o.uniq = V(uniq - d)>>,
    <<0, "rowdup", \E d \in Missed(uniq) : o.dup = V(w.rows - uniq + d)>> }
ProfileClauses(p, o) ==
  TableClauses(p, o) \cup
  (IF Len(o.cols) < p.nc THEN {} ELSE UNION {ColClauses(j, p, o.cols[j]) : j \in 1..p.nc})
  \cup (IF p.ramps = <<>> \/ Len(o.cols) # p.nc + 1 THEN {} ELSE RampClauses(p.nc + 1, p, o.cols[p.nc + 1]))

ViaStr(v) == (IF "merge" \in v THEN "M" ELSE "") \o (IF "pickle" \in v THEN "P" ELSE "") \o (IF "json" \in v THEN "J" ELSE "")
Say(pid, col, cl, via) == PrintT(<<"FAIL", Tr.seed, l, Ev.op, pid, col, cl, TRUE, via>>)
Uses(op) == IF op.op = "new" THEN {} ELSE IF op.op = "merge" THEN {op.p, op.q} ELSE {op.p}
Next ==
  /\ l <= Len(Tr.steps)
  /\ LET op == Ev
         tg == Target(op)
         skip == Uses(op) \cap dead # {}
         s2 == IF skip \/ op.ok = 0 THEN st ELSE Step(st, op)
         via == ViaStr(s2[tg].via)
     IN /\ IF skip THEN TRUE ELSE
           IF op.ok = 0 THEN Say(tg, 0, "accept", ViaStr(UNION {st[q].via : q \in Uses(op)} \cup {op.op})) ELSE
           /\ \A c \in ProfileClauses(s2[tg], op.obs) : ~c[3] => Say(tg, c[1], c[2], via)
           /\ op.op = "reload" /\ op.same = 0 => Say(tg, 0, "roundtrip", via)
        /\ Len(op.chg) > 0 => Say(op.chg[1], 0, "interference", "")
        /\ st' = s2
        /\ dead' = IF op.ok = 0 \/ skip THEN dead \cup {tg} ELSE IF op.op = "update" THEN dead ELSE dead \ {tg}
  /\ l' = l + 1 /\ UNCHANGED t
View == <<t, l>>
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 1, 0, Traces)
=============================================================================
