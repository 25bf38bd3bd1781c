------------------------------- MODULE BulkMC -------------------------------
(***************************************************************************)
(* The summaries of runs are those of the rows one by one.                 *)
(***************************************************************************)
EXTENDS Bulk
CONSTANTS MaxRuns, MaxCount
Cells == { <<"1">>, <<"-","2">>, <<"0",".","5">>, <<"a">>, <<>>, <<"2","0","2","0","-","0","1","-","0","2">> }
VARIABLE runs
Init == runs = <<>>
Next == /\ Len(runs) < MaxRuns
        /\ \E c \in Cells, k \in 1..MaxCount : runs' = Append(runs, [row |-> <<c>>, n |-> k])
RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>> ELSE [i \in 1..rs[1].n |-> rs[1].row[1]] \o Expand(Tail(rs))
cells == Expand(runs)
direct == Summ(cells, DefaultNull)
weighted == WSumm(CellBag(runs, 1), DefaultNull)
Same == /\ weighted.n = direct.n /\ weighted.v = direct.v
        /\ weighted.null = [c \in DOMAIN direct.null |-> Cardinality(direct.null[c])]
        /\ weighted.ci = direct.ci /\ weighted.cf = direct.cf /\ weighted.cd = direct.cd
        /\ weighted.int = direct.int /\ weighted.flt = direct.flt
        /\ ~weighted.long => weighted.txt = direct.txt
        /\ weighted.sig = direct.sig /\ weighted.vocab = direct.vocab /\ weighted.cats = direct.cats
        /\ weighted.dat.mn = direct.dat.mn /\ weighted.dat.lo = direct.dat.lo /\ weighted.dat.hi = direct.dat.hi
        /\ weighted.dfm = DOMAIN direct.dfm
SortedNums == LET ns == SelectSeq(cells, LAMBDA c : IsNumber(c)) IN SortSeq([i \in 1..Len(ns) |-> Num4(ns[i])], <)
SameOrder == LET B == CellBag(runs, 1)
                 S == {c \in DOMAIN B : IsNumber(c)} IN
             \A k \in 1..Len(SortedNums) : Kth(B, S, LAMBDA c : Num4(c), k) = SortedNums[k]
SameRows == LET w == WRows(runs, 1, DefaultNull) IN
            /\ w.rows = Len(cells) /\ w.uniq = Cardinality({cells[i] : i \in 1..Len(cells)})
            /\ w.hasnull = Cardinality({i \in 1..Len(cells) : DefaultNull(cells[i])}) /\ w.isnull = w.hasnull
=============================================================================
