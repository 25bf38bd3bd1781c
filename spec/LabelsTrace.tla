----------------------------- MODULE LabelsTrace -----------------------------
(***************************************************************************)
(* Checks traces recorded from real labelers, and from profiles that use   *)
(* them, against Labels.tla.                                               *)
(* FAIL, seed, step, op, profile, column, clause, fresh, via               *)
(***************************************************************************)
EXTENDS Labels, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, par, st, dead, dirty, map
Slots == 1..4
Tr == Traces[t]
Ev == Tr.steps[l]
\* the labels of the character models and their numbers
Map0 == << <<"PAD", 0>>, <<"UNKNOWN", 1>>, <<"NUM", 2>>, <<"LOW", 3>>, <<"UPP", 4>> >>
Nothing == [cols |-> <<>>, ent |-> NoEntities, whole |-> TRUE, via |-> {}]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ par = Traces[t].steps[1].par /\ st = [p \in Slots |-> Nothing]
        /\ dead = {} /\ dirty = [p \in Slots |-> {}] /\ map = Map0
Say(op, pid, col, cl, fresh, via) == PrintT(<<"FAIL", Tr.seed, l, op.op, pid, col, cl, fresh, via>>)
ViaStr(s) == (IF "merge" \in s THEN "M" ELSE "") \o (IF "pickle" \in s THEN "P" ELSE "") \o (IF "json" \in s THEN "J" ELSE "")

--------------------------------------------------------------------------
(* Labelers.  Data given rep times over is answered rep times over.        *)
Long(op) == FlattenSeq([i \in 1..op.rep |-> op.data])
Near(a, b) == a - b <= 2 /\ b - a <= 2
\* op.out.pred, op.out.conf: as recorded for the kind of labeler
PipeClauses(op, o) ==
  LET d == op.data  n == Len(d) IN
  CASE Tr.kind = "text" ->
         LET want == [i \in 1..n |-> TextLabels(d[i], par.word, par.pct)] IN
         { <<"label.count", Len(o.pred) = n>>,
           <<"label.chars", IF par.ner = 1 THEN o.pred = [i \in 1..n |-> Runs(want[i])] ELSE o.pred = want>>,
           <<"label.conf", o.conf = [i \in 1..n |-> CharLabels(d[i])]>> }
    [] Tr.kind = "cells" ->
         { <<"label.count", Len(o.pred) = n /\ Len(o.conf) = n>>,
           <<"label.cells", Len(o.pred) = n /\ \A i \in 1..n : IF CellLabels(d[i]) = {} THEN o.pred[i] = -1 ELSE o.pred[i] \in CellLabels(d[i])>>,
           <<"label.conf", Len(o.conf) = n /\ \A i \in 1..n : \A k \in 1..5 :
               LET m == Counted(d[i]) IN
               IF k = 1 \/ m = 0 THEN o.conf[i][k] = 0 ELSE Near(o.conf[i][k], (100000 * Count(d[i], k - 1)) \div m)>> }
    [] Tr.kind = "regex" ->
         LET v == TLCEval([i \in 1..n |-> Votes(par.pats, d[i], par.ic, par.enc)]) IN
         { <<"label.count", Len(o.pred) = n * op.rep>>,
           <<"label.regex", Len(o.pred) = n * op.rep /\ \A j \in 1..(n * op.rep) : LET i == ((j - 1) % n) + 1 IN
               Len(o.pred[j]) = Len(d[i]) /\ \A c \in 1..Len(d[i]) :
                 CASE par.agg = "split" -> o.pred[j][c] = [k \in 1..4 |-> IF (k - 1) \in v[i][c] THEN 6 \div Cardinality(v[i][c]) ELSE 0]
                   [] par.agg = "priority" -> o.pred[j][c] = FirstOf(par.order, v[i][c])
                   [] OTHER -> o.pred[j][c] \in v[i][c]>>,
           <<"label.conf", Len(o.conf) = n * op.rep /\ \A j \in 1..(n * op.rep) : LET i == ((j - 1) % n) + 1 IN
               o.conf[j] = [c \in 1..Len(d[i]) |-> [k \in 1..4 |-> IF (k - 1) \in v[i][c] THEN 6 \div Cardinality(v[i][c]) ELSE 0]]>> }
    [] Tr.kind = "sregex" ->
         LET v == TLCEval([i \in 1..n |-> Votes(par.pats, d[i], par.ic, par.enc)])
             sh == TLCEval([i \in 1..n |-> [k \in 1..4 |-> Share(v[i], k - 1)]]) IN
         { <<"label.count", Len(o.pred) = n * op.rep>>,
           <<"label.cells", Len(o.pred) = n * op.rep /\ \A j \in 1..(n * op.rep) : LET i == ((j - 1) % n) + 1 IN
               \A k \in 1..4 : sh[i][k] <= sh[i][o.pred[j] + 1]>>,
           <<"label.conf", Len(o.conf) = n * op.rep /\ \A j \in 1..(n * op.rep) : LET i == ((j - 1) % n) + 1 IN
               \A k \in 1..4 : Near(o.conf[j][k], (100000 * sh[i][k]) \div (6 * Len(d[i])))>> }
    [] Tr.kind = "names" ->
         LET best(x) == {i \in 1..Len(par.tp) : \A k \in 1..Len(par.tp) : ~Gt(Sim(x, par.tp[k]), Sim(x, par.tp[i]))}
             out(x) == \E k \in 1..Len(par.fp) : Above(Sim(x, par.fp[k]), par.neg) \/ At(Sim(x, par.fp[k]), par.neg)
             got(x) == ~out(x) /\ \A i \in best(x) : Above(Sim(x, par.tp[i]), par.pos)
             edge(x) == \/ \E i \in best(x) : At(Sim(x, par.tp[i]), par.pos)
                        \/ \E k \in 1..Len(par.fp) : At(Sim(x, par.fp[k]), par.neg)
             vague == \E i \in 1..n : edge(d[i])         \* exactly at a threshold
             named == SelectSeq(d, got) IN
         { <<"label.names", vague \/ (Len(o.pred) = Len(named) /\ \A i \in 1..Len(named) : o.pred[i] \in best(named[i]))>>,
           <<"label.conf", vague \/ (Len(o.conf) = Len(named) /\ \A i \in 1..Len(named) : \A k \in best(named[i]) :
               LET s == Sim(named[i], par.tp[k]) IN Near(o.conf[i], (10000 * s[1]) \div s[2]))>> }

\* Training data: every character goes with its label, samples are of the right
\* length, padded as such, and come in batches of the right size.
SpanLabel(sp, i) == LET s == {k \in 1..Len(sp) : sp[k][1] < i /\ i <= sp[k][2]} IN
                    IF s = {} THEN 1 ELSE sp[Max(s)][3]
TrainClauses(op) ==
  LET d == op.data n == Len(d) o == op.out
      pairs == FlattenSeq([i \in 1..n |-> [c \in 1..Len(d[i]) |-> <<d[i][c], SpanLabel(op.spans[i], c)>>]]) IN
  { <<"train.pairs", o.pairs = pairs>>, <<"train.pad", o.pad = 1>>,
    <<"train.coded", o.coded = 1>>,
    <<"train.length", \A i \in 1..Len(o.lens) : o.lens[i] <= par.ml>>,
    <<"train.batch", \A i \in 1..Len(o.sizes) : o.sizes[i] <= op.bs /\ (i < Len(o.sizes) => o.sizes[i] = op.bs)>> }

\* Adding a label: a new one gets the next number, or that of another
Has(m, x) == \E i \in 1..Len(m) : m[i][1] = x
NumberOf(m, x) == m[CHOOSE i \in 1..Len(m) : m[i][1] = x][2]
TopNumber(m) == Max({m[i][2] : i \in 1..Len(m)})
Refused(op) == op.op = "label" /\ ~Has(map, op.m) /\ op.form # "" /\ ~Has(map, op.form)
MapAfter(op) ==
  IF op.op # "label" \/ Has(map, op.m) \/ Refused(op) THEN map
  ELSE Append(map, <<op.m, IF op.form = "" THEN TopNumber(map) + 1 ELSE NumberOf(map, op.form)>>)
\* the labels in the order of their numbers, the last of several with one number
LabelList(m) == [k \in 1..(TopNumber(m) + 1) |-> m[Max({i \in 1..Len(m) : m[i][2] = k - 1})][1]]

--------------------------------------------------------------------------
(* Profiles                                                                *)
Given(op) ==
  IF Tr.kind = "column"
  THEN [Nothing EXCEPT !.cols = [j \in 1..Len(op.data) |-> BatchLabels(SelectSeq(op.data[j], LAMBDA x : ~DefaultNull(x)), par.ms)]]
  ELSE LET ls == SelectSeq(op.data, LAMBDA x : \E i \in 1..Len(x) : x[i] # " ") IN
       [Nothing EXCEPT !.ent = FoldLeft(LAMBDA a, x : AllEntities(a, LineEntities(x)), NoEntities, ls),
                       \* the last word of a text is counted if it is an entity or a separator follows
                       !.whole = \A i \in 1..Len(ls) : IsSep(ls[i], Len(ls[i]))]
Joined(a, b) ==
  [cols |-> IF a.cols = <<>> THEN b.cols ELSE IF b.cols = <<>> THEN a.cols ELSE [j \in 1..Len(a.cols) |-> Together(a.cols[j], b.cols[j])],
   ent |-> AllEntities(a.ent, b.ent), whole |-> a.whole /\ b.whole, via |-> a.via \cup b.via]
After(op) ==
  CASE op.op = "new" -> Given(op)
    [] op.op = "update" -> Joined(st[op.p], Given(op))
    [] op.op = "merge" -> [Joined(st[op.p], st[op.q]) EXCEPT !.via = @ \cup {"merge"}]
    [] op.op = "reload" -> [st[op.p] EXCEPT !.via = @ \cup {op.m}]
Ratio(v, m, o) == IF m = 0 THEN o = 0 ELSE Near(o, (100000 * v) \div m)
ColClauses(c, o, j) ==
  IF c.n = 0 THEN { <<j, "label.none", o.none = 1>> } ELSE
  { <<j, "label.none", o.none = 0>>,
    <<j, "label.column", IF Undetermined(c) THEN o.label = <<0>> ELSE RightLabel(c, o.label)>>,
    <<j, "label.avg", o.none = 0 /\ \A k \in 1..4 : Ratio(c.conf[k], 60 * c.n, o.avg[k])>>,
    <<j, "label.rep", o.none = 0 /\ \A k \in 1..4 : Ratio(c.votes[k], Total(c), o.rep[k])>> }
ProfClauses(p, o) ==
  IF Tr.kind = "column" THEN UNION {ColClauses(p.cols[j], o.cols[j], j) : j \in 1..Len(p.cols)}
  ELSE LET e == p.ent IN
  { <<0, "label.chars", o.chars = e.chars>>, <<0, "label.post", o.post = e.post>>,
    <<0, "label.share", \A k \in 1..5 : Ratio(e.chars[k], Sum5(e.chars), o.pchars[k]) /\ Ratio(e.post[k], Sum5(e.chars), o.ppost[k])>>,
    <<0, "label.entities", \A k \in 3..5 : o.words[k] = e.words[k]>>,
    <<0, "label.words", p.whole => o.words = e.words>>,
    <<0, "label.share", p.whole => \A k \in 1..5 : Ratio(e.words[k], Sum5(e.words), o.pwords[k])>> }
\* Comparing profiles: label by label the difference of what they report (a, b)
Minus(a, b, d, slack) == \A k \in 1..Len(d) : d[k] - (a[k] - b[k]) \in (0 - slack)..slack
SetOf(x) == {x[i] : i \in 1..Len(x)}
DiffClauses(a, b, d) ==
  IF Tr.kind = "column" THEN UNION { LET x == a.cols[j] y == b.cols[j] z == d.cols[j] IN
    { <<j, "diff.label", LET A == SetOf(x.label) B == SetOf(y.label) IN
         IF A = B THEN z.how = 1
         ELSE /\ z.how = (IF A = {} \/ B = {} THEN 2 ELSE 0)
              /\ SetOf(z.a) = A \ B /\ SetOf(z.b) = B \ A /\ SetOf(z.both) = A \cap B>>,
      <<j, "diff.avg", Minus(x.avg, y.avg, z.avg, 2)>>, <<j, "diff.rep", Minus(x.rep, y.rep, z.rep, 2)>> } : j \in 1..Len(d.cols) }
  ELSE { <<0, "diff.chars", Minus(a.chars, b.chars, d.chars, 0)>>, <<0, "diff.post", Minus(a.post, b.post, d.post, 0)>>,
         <<0, "diff.words", Minus(a.words, b.words, d.words, 0)>>,
         <<0, "diff.share", Minus(a.pchars, b.pchars, d.pchars, 2) /\ Minus(a.ppost, b.ppost, d.ppost, 2) /\ Minus(a.pwords, b.pwords, d.pwords, 2)>> }

Pipe == Tr.kind \notin {"column", "lines"}
Srcs(op) == CASE op.op = "update" -> {op.p} [] op.op = "merge" -> {op.p, op.q} [] op.op = "reload" -> {op.p} [] OTHER -> {}
Target(op) == IF op.r # 0 THEN op.r ELSE op.p

NextPipe ==
  /\ par' = Ev.par
  /\ map' = MapAfter(Ev)
  /\ (Ev.ok = 0 /\ ~Refused(Ev)) => Say(Ev, 0, 0, "accept", TRUE, "")
  /\ (Ev.ok = 1 /\ Refused(Ev)) => Say(Ev, 0, 0, "reject", TRUE, "")
  /\ (Tr.kind \in {"text", "cells"} /\ (Ev.map # map' \/ Ev.names # LabelList(map'))) => Say(Ev, 0, 0, "mapping", Ev.op = "label", "")
  /\ (Ev.ok = 1 /\ Ev.op = "predict") =>
       /\ \A c \in PipeClauses(Ev, Ev.out) \cup {<<"input.kept", Ev.out.kept = 1>>} : ~c[2] => Say(Ev, 0, 0, c[1], TRUE, "")
       \* without asking for confidences
       /\ \A c \in PipeClauses(Ev, [Ev.out EXCEPT !.pred = Ev.out.alone]) : ~c[2] => Say(Ev, 0, 0, c[1], TRUE, "alone")
  /\ (Ev.ok = 1 /\ Ev.op = "train") => \A c \in TrainClauses(Ev) : ~c[2] => Say(Ev, 0, 0, c[1], TRUE, "")
  /\ (Ev.ok = 1 /\ Ev.op = "resave" /\ Ev.same = 0) => Say(Ev, 0, 0, "roundtrip", TRUE, "")
  /\ UNCHANGED <<st, dead, dirty>>
NextDiff ==
  /\ ({Ev.p, Ev.q} \cap dead = {}) =>
       IF Ev.ok = 0 THEN Say(Ev, Ev.p, 0, "accept", TRUE, "")
       ELSE \A c \in DiffClauses(Ev.obs, Ev.out[1], Ev.out[2]) : ~c[3] => Say(Ev, Ev.p, c[1], c[2], TRUE, "")
  /\ \A i \in 1..Len(Ev.chg) : Ev.chg[i] \notin dead => Say(Ev, Ev.chg[i], 0, "interference", TRUE, "")
  /\ UNCHANGED <<par, map, st, dead, dirty>>
NextProf ==
  LET op == Ev tg == Target(op) skip == Srcs(op) \cap dead # {}
      new == IF skip THEN Nothing ELSE After(op)
      via == ViaStr(new.via)
      bad == IF skip \/ op.ok = 0 THEN {} ELSE {<<c[1], c[2]>> : c \in {c \in ProfClauses(new, op.obs) : ~c[3]}}
      old == UNION {dirty[s] : s \in Srcs(op)} IN
  /\ st' = [st EXCEPT ![tg] = new]
  /\ dead' = IF skip \/ op.ok = 0 THEN dead \cup {tg} ELSE dead \ {tg}
  /\ dirty' = [dirty EXCEPT ![tg] = bad]
  /\ (~skip /\ op.ok = 0) => Say(op, tg, 0, "accept", TRUE, via)
  /\ \A b \in bad : Say(op, tg, b[1], b[2], b \notin old, via)
  /\ (~skip /\ op.ok = 1 /\ op.op = "reload" /\ op.same = 0) => Say(op, tg, 0, "roundtrip", TRUE, via)
  /\ \A i \in 1..Len(op.chg) : op.chg[i] \notin dead => Say(op, op.chg[i], 0, "interference", TRUE, via)
  /\ UNCHANGED <<par, map>>
Next == /\ l <= Len(Tr.steps) /\ l' = l + 1 /\ t' = t /\ (IF Pipe THEN NextPipe ELSE IF Ev.op = "diff" THEN NextDiff ELSE NextProf)
View == <<t, l>>
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 1, 0, Traces)
=============================================================================
