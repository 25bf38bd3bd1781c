------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* Sampling of cell contents by column kind, for the generator modules.    *)
(***************************************************************************)
EXTENDS Dates, Rand

DigitCh == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE NatChars(_)
NatChars(n) == IF n < 10 THEN <<DigitCh[n + 1]>>
               ELSE Append(NatChars(n \div 10), DigitCh[(n % 10) + 1])
Pad2(n) == IF n < 10 THEN <<"0">> \o NatChars(n) ELSE NatChars(n)
IntChars(n) == IF n < 0 THEN <<"-">> \o NatChars(0 - n) ELSE NatChars(n)

AtoZ == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Frac == << <<".","0">>, <<".","2","5">>, <<".","5">>, <<".","5","0">>, <<".","7","5">>,
           <<".","2","5","0">>, <<>> >>

NullTokens == << <<>>, <<" ">>, <<"n","a","n">>, <<"N","U","L","L">>, <<"N","o","n","e">>,
                 <<"-","-">>, <<"_">>, <<" "," ">>, <<"-">>, <<"n","u","l","l">> >>
\* words, including several that only look like nulls, numbers or dates
Words == << <<"a">>, <<"b","b">>, <<"x"," ","y">>, <<"n","a","n","o">>, <<"n","u","l","l","0">>,
            <<"1","a">>, <<"-","x">>, <<"Z">>, <<"z">>, <<"h","e","l","l","o">>,
            <<"_","a">>, <<"-","_">>, <<"A","b","C","d">>, <<"n","o","n","e","s">>,
            <<"1","-","2">>, <<"t","a","b","l","e","s"," ","&"," ","s">>, <<"2","0","2","0","-","1","3","-","0","1">>,
            <<"#">>, <<"e">>, <<"N">> >>
\* numbers written in unusual ways, and texts which only look like numbers
OddNums == << <<"+","5">>, <<"0","0","7">>, <<"-","0">>, <<"5",".">>, <<".","5">>, <<" ","5">>, <<"5"," ">>,
              <<"1","e","1">>, <<"5","e","-","1">>, <<"1","E","1">>, <<"-","0",".","0">>, <<"2",".","5","E","0">>,
              <<"-",".","5">>, <<"1",".","5","e","+","1">>, <<" ","-","2",".","5"," ">> >>
NearNums == << <<"1","e">>, <<"e","5">>, <<"1",",","0","0","0">>, <<"$","5">>, <<"1",".","2",".","3">>, <<"-","-","5">>,
               <<"1"," ","0">>, <<"5","%">>, <<"0","x","1">>, <<"+">>, <<".">>, <<"1","e","1",".","5">>, <<"-"," ","5">> >>
Cats == << <<"r","e","d">>, <<"b","l","u","e">>, <<"R","e","d">>, <<"g">> >>

IntCell(r)  == IF RChance(r, 25) THEN <<"0">> ELSE IntChars(RIn(RNext(r), -12, 12))
PosCell(r)  == NatChars(RIn(r, 1, 12))
FltCell(r)  == LET v == RIn(r, -11, 11)
                   f == RPick(RNext(r), Frac)
               IN IF v = 0 /\ RChance(RSkip(r, 2), 20) /\ Len(f) > 0 /\ f # <<".","0">> THEN f
                  ELSE IntChars(v) \o f
TxtCell(r)  == RPick(r, Words)
CatCell(r)  == RPick(r, Cats)
DatCell(r)  == <<"2","0">> \o Pad2(RIn(r, 0, 24)) \o <<"-">> \o Pad2(RIn(RNext(r), 1, 12))
               \o <<"-">> \o Pad2(RIn(RSkip(r, 2), 1, 28))
\* dates in each of the formats
YearOf(r) == RIn(r, 1985, 2030)
Mon(f, k) == LET n == MonthName(f, k) IN [i \in 1..Len(n) |-> IF i = 1 THEN (CHOOSE u \in DOMAIN LowerFcn : LowerFcn[u] = n[1]) ELSE n[i]]
DayCh(r, d) == IF d >= 10 \/ RChance(r, 50) THEN NatChars(d) ELSE Pad2(d)
Field(f, r) ==
  CASE f = "Y" -> NatChars(YearOf(r)) [] f = "y" -> Pad2(YearOf(r) % 100)
    [] f = "m" -> Pad2(RIn(r, 1, 12)) [] f = "d" -> Pad2(RIn(r, 1, 28))
    [] f = "H" -> Pad2(RIn(r, 0, 23)) [] f \in {"M", "S"} -> Pad2(RIn(r, 0, 59))
    [] f = "f" -> RPick(r, << <<"0">>, <<"0","0","0">>, <<"0","0","0","0","0","0">> >>)
    [] OTHER -> Mon(f, IF RChance(r, 40) THEN 5 ELSE RIn(RNext(r), 1, 12))
RECURSIVE Written(_, _)
Written(p, r) == IF p = <<>> THEN <<>>
                 ELSE (IF p[1] \in Fields THEN Field(p[1], RSub(r, Len(p))) ELSE <<p[1]>>) \o Written(Tail(p), r)
DateIn(f, r) == Written(Formats[f], r)
\* a date with a suffix to its day
Suffixed(r) == Mon("b", RIn(r, 1, 12)) \o <<" ">> \o RPick(RNext(r), << <<"1","s","t">>, <<"2","n","d">>, <<"1","3","t","h">>, <<"3","r","d">> >>)
               \o <<",", " ">> \o NatChars(YearOf(RSkip(r, 2)))
AnyDate(r) == IF RChance(r, 10) THEN Suffixed(RNext(r)) ELSE DateIn(RIn(RNext(r), 1, 15), RSub(r, 3))
\* texts which only look like dates
NearDates == << <<"2","0","2","0","-","0","2","-","3","0">>, <<"1","3","/","0","1","/","2","0","2","0">>,
                <<"J","a","n"," ","3","2",","," ","2","0","2","0">>, <<"2","4",":","0","0",":","0","0",".","0">>,
                <<"2","0","2","0","-","0","1">>, <<"2","0","2","1","-","0","2","-","2","9">>,
                <<"2","0","2","0","-","0","1","-","0","1"," ","1","0",":","0","0">> >>
NullCell(r) == RPick(r, NullTokens)

Cell(kind, r) ==
  CASE kind = "int" -> IntCell(r)
    [] kind = "pos" -> PosCell(r)
    [] kind = "zer" -> IF RChance(r, 70) THEN <<"0">> ELSE IntCell(RNext(r))
    [] kind = "bin" -> <<RPick(r, <<"0", "1">>)>>
    [] kind = "flt" -> FltCell(r)
    [] kind = "txt" -> TxtCell(r)
    [] kind = "cat" -> CatCell(r)
    [] kind = "dat" -> DatCell(r)
    [] kind = "con" -> <<"5">>
    [] kind = "coz" -> <<"0">>
    [] kind = "nul" -> NullCell(r)
    [] kind = "mix" -> LET k == RVal(r, 6) q == RSkip(r, 3) IN
         (CASE k = 0 -> IntCell(q) [] k = 1 -> FltCell(q) [] k = 2 -> TxtCell(q)
            [] k = 3 -> DatCell(q) [] k = 4 -> CatCell(q) [] OTHER -> IntCell(q))
    [] kind = "odd" -> IF RChance(r, 60) THEN RPick(RNext(r), OddNums) ELSE FltCell(RNext(r))
    [] kind = "nea" -> IF RChance(r, 50) THEN RPick(RNext(r), NearNums) ELSE RPick(RNext(r), OddNums)
    [] kind = "dts" -> AnyDate(r)
    \* times of a day as they are written, more often than not midnight
    [] kind = "stm" -> DatCell(r) \o <<" ">> \o RPick(RSkip(r, 5), << <<"0","0",":","0","0",":","0","0">>, <<"0","0",":","0","0",":","0","0">>,
                                                                     <<"0","0",":","0","0",":","0","0">>, <<"1","2",":","3","0",":","1","5">> >>)
    [] kind = "boo" -> RPick(r, << <<"T","r","u","e">>, <<"F","a","l","s","e">> >>)
    [] kind = "tim" -> DateIn(16, r)
    [] kind = "dmx" -> LET k == RVal(r, 8) q == RSkip(r, 3) IN
         IF k = 0 THEN DateIn(16, q) ELSE IF k = 1 THEN RPick(q, NearDates) ELSE AnyDate(q)
    [] kind = "may" -> DateIn(RPick(r, <<11, 12, 13, 14>>), RNext(r))
    \* numbers far from zero (and close to each other)
    [] kind = "fai" -> NatChars(100000000 + RIn(r, -12, 12))
    [] kind = "far" -> NatChars(100000000 + RIn(r, -11, 11)) \o RPick(RNext(r), Frac)
    \* long texts
    [] kind = "lng" -> LET k == RIn(r, 249, 258) q == RNext(r) IN
         [i \in 1..k |-> AtoZ[((i * (1 + RVal(q, 3))) % 26) + 1]]
    [] kind = "num" -> IF RChance(r, 60) THEN IntCell(RNext(r)) ELSE FltCell(RNext(r))
    [] OTHER -> TxtCell(r)

\* a cell of a column that is sorted more often than not
OrdCell(i, n, r) ==
  LET base == RIn(r, -6, 20)
      k == RVal(RNext(r), 10)
      x == base + (IF k < 4 THEN i - 1 ELSE IF k < 8 THEN 1 - i ELSE IF k = 8 THEN 0 ELSE RVal(RSub(r, i), 3))
      form == RVal(RSkip(r, 2), 12)
  IN IF form = 0 THEN <<AtoZ[((x + 12) % 26) + 1]>>
     ELSE IF form = 1 THEN IntChars(x) \o <<".","5">> ELSE IntChars(x)

\* one column of n cells; pct percent of them null tokens
CellCol(kind, n, pct, r) ==
  [i \in 1..n |-> LET q == RSub(r, i) IN
     IF RChance(q, pct) THEN NullCell(RNext(q))
     ELSE IF kind = "ord" THEN OrdCell(i, n, RSub(r, 991))
     ELSE Cell(kind, RSkip(q, 2))]
=============================================================================
