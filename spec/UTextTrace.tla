----------------------------- MODULE UTextTrace -----------------------------
(***************************************************************************)
(* Checks traces recorded from the real unstructured profiler against      *)
(* UText.tla.                                                              *)
(* FAIL, seed, step, op, profile, column, clause, fresh, via               *)
(***************************************************************************)
EXTENDS UText, Diff, Views, Sampling, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, l, st, dirty, dead
Slots == 1..4
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = [p \in Slots |-> Off]
        /\ dirty = [p \in Slots |-> {}] /\ dead = {}
Ev == Traces[t].steps[l]
V(x) == <<1, x>>
Lists(xs, bag) == Elems(xs) = DOMAIN bag /\ Len(xs) = Cardinality(DOMAIN bag)

Clauses(p, o) ==
  LET w == TLCEval(WordBag(p)) c == TLCEval(CharBag(p)) IN
  { <<"lines", o.lines = Len(p.lines)>>, <<"empty", o.empty = EmptyLines(p)>>,
    <<"memory", o.mem = V(p.size)>>,
    <<"chars", Lists(o.chars, c)>>, <<"charcount", Top(c, p.tkc, o.charcount)>>,
    <<"words", Lists(o.words, w)>>, <<"wordcount", Top(w, p.tkw, o.wordcount)>> }

DiffClauses(p, q, d) ==
  LET w1 == TLCEval(WordsFor(p, q)) w2 == TLCEval(WordsFor(q, p))
      c1 == TLCEval(CharBag(p)) c2 == TLCEval(CharBag(q)) IN
  { <<"diff.lines", NumDiff(d.lines, Len(p.lines), Len(q.lines))>>,
    <<"diff.empty", NumDiff(d.empty, EmptyLines(p), EmptyLines(q))>>,
    <<"diff.memory", NumDiff(d.mem, p.size, q.size)>>,
    <<"diff.chars", SetDiff(d.chars, DOMAIN c1, DOMAIN c2)>>,
    <<"diff.words", SetDiff(d.words, DOMAIN w1, DOMAIN w2)>> }
  \cup (IF p.tkc = 0 THEN { <<"diff.charcount", BagDiff(d.charcount, c1, c2)>> } ELSE {})
  \cup (IF p.tkw = 0 THEN { <<"diff.wordcount", BagDiff(d.wordcount, w1, w2)>> } ELSE {})

\* A view of the report (see ProfilerTrace.tla)
ViewClauses(p, v, o) ==
  LET no(x, y) == FALSE
      off(path) == v.rdf = 1 /\ Len(path) > 2 /\ path[2] = "statistics" /\
                   (("vocab" \notin p.en /\ path[3] \in {"vocab", "vocab_count"}) \/ ("words" \notin p.en /\ path[3] \in {"words", "word_count"})) IN
  { <<"view.keys", {x.path : x \in Elems(o.view)} = {b.path : b \in {b \in Elems(o.base) : ~Omitted(v, b.path, no) /\ ~off(b.path)}}>>,
    <<"view.values", \A i \in 1..Len(o.view) : o.view[i].ok = 1>>,
    <<"view.json", o.json = 1>>, <<"view.asked", o.asked = 1>> }

\* The lines looked at: those whose first word is new, and as many empty ones
\* as were counted (they differ in nothing that is reported).
TakeOf(op) ==
  IF Traces[t].sampling = 0 \/ op.op \notin {"new", "update"} \/ op.data = <<>> \/ op.ok = 0 THEN <<>> ELSE
  LET e == {i \in 1..Len(op.data) : IsEmptyLine(op.data[i])}
      v == {i \in (1..Len(op.data)) \ e : Tokens(op.data[i])[1] \in Elems(op.nv)} IN
  << v \cup {i \in e : Cardinality({k \in e : k <= i}) <= op.ne} >>
SampleClauses(p, op) ==
  LET k == IF op.k > 0 THEN op.k ELSE p.k  m == IF op.mt > 0 THEN op.mt ELSE p.mt IN
  { <<"sample.size", RightSize(k, m, Len(op.data), op.take, <<{i \in op.take[1] : ~IsEmptyLine(op.data[i])}>>)>>,
    <<"sample.seed", op.again # 0>> }

Srcs(op) == CASE op.op = "update" -> {op.p} [] op.op = "merge" -> {op.p, op.q} [] op.op = "reload" -> {op.p} [] OTHER -> {}
ViaStr(s) == (IF "merge" \in s THEN "M" ELSE "") \o (IF "pickle" \in s THEN "P" ELSE "")
Report(op, pid, cl, fresh, via) ==
  PrintT(<<"FAIL", Traces[t].seed, l, op.op, pid, 0, cl, fresh, via>>)

Next ==
  /\ l <= Len(Traces[t].steps)
  /\ LET op == [Ev EXCEPT !.take = TakeOf(Ev)]
         touched == {op.p, op.q} \ {0}
         skip == touched \cap dead # {} /\ op.op # "new"
         s2 == Step(st, op)
         tg == Target(op)
         old == UNION {dirty[x] : x \in Srcs(op)}
         bad == IF skip \/ op.ok = 0 \/ tg = 0 \/ ~Accepts(st, op) THEN {} ELSE 
                {c[1] : c \in {c \in Clauses(s2[tg], op.obs) \cup (IF op.take = <<>> THEN {} ELSE SampleClauses(s2[tg], op)) : ~c[2]}}
         via == IF tg = 0 THEN "" ELSE ViaStr(s2[tg].via)
     IN /\ IF skip THEN TRUE ELSE
           /\ op.ok = 0 /\ Accepts(st, op) => Report(op, tg, "accept", TRUE, via)
           /\ op.ok = 1 /\ ~Accepts(st, op) => Report(op, tg, "reject", TRUE, via)
           /\ \A c \in bad : Report(op, tg, c, c \notin old, via)
           /\ op.ok = 1 /\ op.op = "reload" /\ op.same # 1 => Report(op, tg, "roundtrip", TRUE, via)
           /\ Len(op.chg) > 0 => Report(op, op.chg[1], "interference", TRUE, via)
           /\ op.ok = 1 /\ op.op = "view" =>
                \A c \in ViewClauses(st[op.p], op, op.seen) : ~c[2] => Report(op, op.p, c[1], TRUE, ViaStr(st[op.p].via))
           /\ Len(op.stale) > 0 => Report(op, op.stale[1], "view.snapshot", TRUE, "")
           /\ op.ok = 1 /\ op.op = "diff" =>
                \A c \in DiffClauses(st[op.p], st[op.q], op.diff) : ~c[2] => Report(op, op.p, c[1], c[1] \notin dirty[op.p], via)
        /\ st' = s2
        /\ dirty' = IF tg = 0 \/ skip \/ ~Accepts(st, op) THEN dirty ELSE [dirty EXCEPT ![tg] = old \cup bad]
        /\ dead' = IF ~skip /\ ~Accepts(st, op) THEN (IF op.ok = 1 THEN dead \cup {tg} ELSE dead) ELSE
                   IF tg # 0 /\ (skip \/ op.ok = 0) THEN dead \cup {tg} ELSE dead \ (IF tg = 0 THEN {} ELSE {tg})
  /\ l' = l + 1 /\ UNCHANGED t
View == <<t, l>>
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, x : a + Len(x.steps) + 1, 0, Traces)
=============================================================================
