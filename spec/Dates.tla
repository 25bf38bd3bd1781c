------------------------------- MODULE Dates --------------------------------
(***************************************************************************)
(* Dates and times.  A format is a sequence of fields and literal          *)
(* characters; a cell is a date if some format reads it completely, with   *)
(* every field in its range and the day within the month.                  *)
(*                                                                         *)
(* Fields: Y year, y two-digit year (from 69 on in the 1900s), m d H M S   *)
(* one or two digits, f fraction of a second (1 to 6 digits), b and B the  *)
(* short and the full name of the month in any letter case.  A day may     *)
(* carry a suffix (1st, 2nd, 3rd, 4th).                                    *)
(***************************************************************************)
EXTENDS Text

Formats == <<
  <<"Y","-","m","-","d"," ","H",":","M",":","S">>,
  <<"Y","-","m","-","d","T","H",":","M",":","S">>,
  <<"Y","-","m","-","d","T","H",":","M",":","S",".","f","Z">>,
  <<"Y","-","m","-","d","t","H",":","M",":","S",".","f","z">>,
  <<"m","/","d","/","y"," ","H",":","M">>,
  <<"m","/","d","/","Y"," ","H",":","M">>,
  <<"Y","m","d","T","H","M","S">>,
  <<"Y","-","m","-","d">>,
  <<"m","/","d","/","Y">>,
  <<"m","/","d","/","y">>,
  <<"b"," ","d",","," ","Y">>,
  <<"B"," ","d",","," ","Y">>,
  <<"d","b","y">>,
  <<"b","-","d","-","y">>,
  <<"m","d","Y">>,
  <<"H",":","M",":","S",".","f">> >>
Fields == {"Y","y","m","d","H","M","S","f","b","B"}
Months == << <<"j","a","n","u","a","r","y">>, <<"f","e","b","r","u","a","r","y">>, <<"m","a","r","c","h">>,
             <<"a","p","r","i","l">>, <<"m","a","y">>, <<"j","u","n","e">>, <<"j","u","l","y">>,
             <<"a","u","g","u","s","t">>, <<"s","e","p","t","e","m","b","e","r">>, <<"o","c","t","o","b","e","r">>,
             <<"n","o","v","e","m","b","e","r">>, <<"d","e","c","e","m","b","e","r">> >>
MonthName(f, k) == IF f = "b" THEN SubSeq(Months[k], 1, 3) ELSE Months[k]

Wide(f) == CASE f = "Y" -> {4} [] f = "y" -> {2} [] f = "f" -> 1..6 [] OTHER -> {1, 2}
InRange(f, v) == CASE f = "m" -> v \in 1..12 [] f = "d" -> v \in 1..31 [] f = "H" -> v \in 0..23
                   [] f \in {"M", "S"} -> v \in 0..59 [] f = "Y" -> v >= 1 [] OTHER -> TRUE
Blank == [Y |-> 1900, m |-> 1, d |-> 1, H |-> 0, M |-> 0, S |-> 0]
Put(a, f, v) == CASE f = "y" -> [a EXCEPT !.Y = IF v < 69 THEN 2000 + v ELSE 1900 + v]
                  [] f = "f" -> a
                  [] f \in {"b", "B"} -> [a EXCEPT !.m = v]
                  [] OTHER -> [a EXCEPT ![f] = v]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* all ways to read cs by the fields of format p
RECURSIVE Read(_, _, _)
Read(p, cs, a) ==
  IF p = <<>> THEN (IF cs = <<>> THEN {a} ELSE {})
  ELSE IF p[1] \notin Fields
  THEN (IF cs # <<>> /\ LowerCh(cs[1]) = LowerCh(p[1]) THEN Read(Tail(p), Tail(cs), a) ELSE {})
  ELSE IF p[1] \in {"b", "B"}
  THEN UNION { LET n == MonthName(p[1], k) IN
               IF Len(cs) >= Len(n) /\ Lower(SubSeq(cs, 1, Len(n))) = n
               THEN Read(Tail(p), SubSeq(cs, Len(n) + 1, Len(cs)), Put(a, p[1], k)) ELSE {} : k \in 1..12 }
  ELSE UNION { IF Len(cs) >= w /\ (\A i \in 1..w : IsDigit(cs[i])) /\ InRange(p[1], DigitsVal(SubSeq(cs, 1, w)))
               THEN Read(Tail(p), SubSeq(cs, w + 1, Len(cs)), Put(a, p[1], DigitsVal(SubSeq(cs, 1, w)))) ELSE {}
               : w \in Wide(p[1]) }

\* day suffixes are dropped wherever they follow one or two digits
Suffixes == { <<"s","t">>, <<"n","d">>, <<"r","d">>, <<"t","h">> }
RECURSIVE DropSuffix(_, _)
DropSuffix(cs, i) ==
  IF i + 1 > Len(cs) THEN cs
  ELSE IF i > 1 /\ IsDigit(cs[i - 1]) /\ SubSeq(cs, i, i + 1) \in Suffixes
  THEN DropSuffix(SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 2, Len(cs)), i)
  ELSE DropSuffix(cs, i + 1)

Valid(a) == a.d <= MonthLen(a.Y, a.m)
\* a date has at least six characters and a digit, and as many separators as
\* its format (cheap tests first)
MayBeDate(cs) == Len(cs) \in 6..30 /\ \E i \in 1..Len(cs) : IsDigit(cs[i])
Seps == <<":", "/", "-", ",", ".">>
Shape(cs) == [k \in 1..5 |-> Cardinality({i \in 1..Len(cs) : cs[i] = Seps[k]})]
Shapes == << <<2,0,2,0,0>>, <<2,0,2,0,0>>, <<2,0,2,0,1>>, <<2,0,2,0,1>>, <<1,2,0,0,0>>, <<1,2,0,0,0>>,
             <<0,0,0,0,0>>, <<0,0,2,0,0>>, <<0,2,0,0,0>>, <<0,2,0,0,0>>, <<0,0,0,1,0>>, <<0,0,0,1,0>>,
             <<0,0,0,0,0>>, <<0,0,2,0,0>>, <<0,0,0,0,0>>, <<2,0,0,0,1>> >>
Reads(f, cs) == {a \in Read(Formats[f], cs, Blank) : Valid(a)}      \* cs: without day suffixes
FormatsOf(cs) ==
  IF ~MayBeDate(cs) THEN {} ELSE
  LET x == TLCEval(DropSuffix(cs, 1))
      sh == TLCEval(Shape(x))
  IN {f \in 1..Len(Formats) : Shapes[f] = sh /\ Reads(f, x) # {}}
IsDate(cs) == FormatsOf(cs) # {}

DayOf(a) ==   \* days since 1 March of the year 0
  LET y == IF a.m <= 2 THEN a.Y - 1 ELSE a.Y
      m == IF a.m <= 2 THEN a.m + 9 ELSE a.m - 3
  IN 365 * y + (y \div 4) - (y \div 100) + (y \div 400) + ((153 * m + 2) \div 5) + a.d - 1
\* seconds since 2000-01-01 (times without a date lie before all dates)
Second(a) == (IF a.Y = 1900 THEN 0 - 2000000000 ELSE (DayOf(a) - 730425) * 86400)
             + a.H * 3600 + a.M * 60 + a.S
\* of several readings, the one in which earlier fields take more digits
Two(v, w) == IF v >= 10 THEN w ELSE 0
Span(a) == Two(a.m, 16) + Two(a.d, 8) + Two(a.H, 4) + Two(a.M, 2) + Two(a.S, 1)
\* when a cell is that the formats fm read (the first of them decides)
WhenBy(cs, fm) ==
  LET f == CHOOSE g \in fm : \A h \in fm : g <= h
      R == TLCEval(Reads(f, DropSuffix(cs, 1)))
  IN Second(CHOOSE a \in R : \A b \in R : Span(a) >= Span(b))
=============================================================================
