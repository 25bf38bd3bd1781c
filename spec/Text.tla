-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The meaning of one cell of data.  A cell is the sequence of its         *)
(* characters (one-character strings); everything the profiler reports     *)
(* about a cell is defined here from those characters: whether it is a     *)
(* null, an integer, a number, its value, its significant figures.         *)
(* Numeric values are scaled by 4 so quarters are exact integers.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
              [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
              [] c = "8" -> 8 [] c = "9" -> 9]
IsDigit(c) == c \in DOMAIN Digit

LowerPairs == { <<"A","a">>, <<"B","b">>, <<"C","c">>, <<"D","d">>, <<"E","e">>,
  <<"F","f">>, <<"G","g">>, <<"H","h">>, <<"I","i">>, <<"J","j">>, <<"K","k">>,
  <<"L","l">>, <<"M","m">>, <<"N","n">>, <<"O","o">>, <<"P","p">>, <<"Q","q">>,
  <<"R","r">>, <<"S","s">>, <<"T","t">>, <<"U","u">>, <<"V","v">>, <<"W","w">>,
  <<"X","x">>, <<"Y","y">>, <<"Z","z">> }
LowerFcn == [u \in {p[1] : p \in LowerPairs} |-> (CHOOSE p \in LowerPairs : p[1] = u)[2]]
LowerCh(c) == IF c \in DOMAIN LowerFcn THEN LowerFcn[c] ELSE c
Lower(cs) == [i \in 1..Len(cs) |-> LowerCh(cs[i])]

AllAre(cs, ch) == \A i \in 1..Len(cs) : cs[i] = ch

(***************************************************************************)
(* Default nulls: the empty cell; nan / none / null in any letter case;    *)
(* runs of blanks; runs of "-"; runs of "_".                               *)
(***************************************************************************)
NullWords == { <<"n","a","n">>, <<"n","o","n","e">>, <<"n","u","l","l">> }
DefaultNull(cs) ==
  \/ cs = <<>>
  \/ Len(cs) <= 4 /\ Lower(cs) \in NullWords
  \/ AllAre(cs, " ") \/ AllAre(cs, "-") \/ AllAre(cs, "_")

(***************************************************************************)
(* Numbers:  blanks [-+]? digits [ . digits ] [ e [-+]? digits ] blanks     *)
(* with at least one digit before the exponent.                            *)
(***************************************************************************)
RECURSIVE DropBlanks(_)
DropBlanks(cs) == IF cs # <<>> /\ cs[1] = " " THEN DropBlanks(Tail(cs)) ELSE cs
RECURSIVE DropBlanksAtEnd(_)
DropBlanksAtEnd(cs) == IF cs # <<>> /\ cs[Len(cs)] = " " THEN DropBlanksAtEnd(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Trim(cs) == DropBlanksAtEnd(DropBlanks(cs))
Body(cs) == IF cs # <<>> /\ cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs
Dots(cs) == {i \in 1..Len(cs) : cs[i] = "."}
Es(cs) == {i \in 1..Len(cs) : cs[i] \in {"e", "E"}}
\* what stands before and after the exponent sign (after: <<>> if there is none)
Mant(cs) == IF Es(cs) = {} THEN cs ELSE SubSeq(cs, 1, (CHOOSE i \in Es(cs) : \A j \in Es(cs) : i <= j) - 1)
Expo(cs) == IF Es(cs) = {} THEN <<>> ELSE SubSeq(cs, Len(Mant(cs)) + 2, Len(cs))
IsNumber(cs) ==
  LET b == Body(Trim(cs)) m == Mant(b) x == Body(Expo(b)) IN
  /\ \E i \in 1..Len(m) : IsDigit(m[i])
  /\ \A i \in 1..Len(m) : IsDigit(m[i]) \/ m[i] = "."
  /\ Cardinality(Dots(m)) <= 1
  /\ Es(b) # {} => x # <<>> /\ \A i \in 1..Len(x) : IsDigit(x[i])

RECURSIVE DigitsVal(_)
DigitsVal(ds) == IF ds = <<>> THEN 0
                 ELSE DigitsVal(SubSeq(ds, 1, Len(ds) - 1)) * 10 + Digit[ds[Len(ds)]]
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

OnlyDigits(cs) == SelectSeq(cs, IsDigit)
Decimals(cs) == IF Dots(cs) = {} THEN 0
                ELSE Len(cs) - (CHOOSE i \in Dots(cs) : TRUE)
\* 4 * the numeric value (the alphabets only use quarters, so this is exact)
Num4(cs) == LET t == Trim(cs)
                b == Body(t)
                x == Expo(b)
                e == IF x = <<>> THEN 0
                     ELSE IF x[1] = "-" THEN 0 - DigitsVal(Body(x)) ELSE DigitsVal(Body(x))
                w == Mant(b)
                dec == Decimals(w)
                whole == SelectSeq(IF Dots(w) = {} THEN w ELSE SubSeq(w, 1, Len(w) - dec - 1), IsDigit)
                frac == SubSeq(w, Len(w) - dec + 1, Len(w))
                k == e - dec
                d == 4 * DigitsVal(whole \o frac)
                m == IF e = 0 THEN 4 * DigitsVal(whole) + ((4 * DigitsVal(frac)) \div Pow10(dec))
                     ELSE IF k >= 0 THEN d * Pow10(k) ELSE d \div Pow10(0 - k)
            IN IF t[1] = "-" THEN 0 - m ELSE m
IsInteger(cs) == IsNumber(cs) /\ Num4(cs) % 4 = 0

(***************************************************************************)
(* Significant figures of a number: the digits left once the sign, leading *)
(* zeros and trailing zeros are removed ("0" has none, "10" one, "100.0"   *)
(* three, "2.50" two); an exponent does not count ("2.5e1" has two).       *)
(***************************************************************************)
RECURSIVE DropLead(_)
DropLead(cs) == IF cs # <<>> /\ cs[1] \in {"+", "-", ".", "0", " "} THEN DropLead(Tail(cs)) ELSE cs
RECURSIVE DropTrailZeros(_)
DropTrailZeros(cs) == IF cs # <<>> /\ cs[Len(cs)] = "0"
                      THEN DropTrailZeros(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
SigFigs(cs) == LET t == Trim(cs) IN
  IF Es(t) = {} THEN Len(OnlyDigits(DropTrailZeros(DropLead(t)))) ELSE Len(OnlyDigits(DropLead(Mant(t))))

CharSet(cs) == {cs[i] : i \in 1..Len(cs)}
=============================================================================
