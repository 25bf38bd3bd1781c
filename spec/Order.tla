-------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* The order of a column: ascending, descending, constant value or random. *)
(*                                                                         *)
(* Within one batch the order is that of the sequence of its values.       *)
(* Across batches and merged profiles a column is regarded as made of      *)
(* pieces which may have arrived in any order: what is kept of the column  *)
(* so far is its order and the range [f, l] it spans, and pieces combine   *)
(* according to whether those ranges overlap (Combine).                    *)
(*                                                                         *)
(* Values are compared as numbers while every value seen was a number, and *)
(* as texts from then on.  An order value is <<0, number>> or <<1, text>>. *)
(***************************************************************************)
EXTENDS Column

\* the printable characters in the order of their codes
Codes == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
  "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
  "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
CodeOf == [c \in {Codes[i] : i \in 1..Len(Codes)} |-> CHOOSE i \in 1..Len(Codes) : Codes[i] = c]
RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = <<>> THEN FALSE
                  ELSE IF a = <<>> THEN TRUE
                  ELSE IF a[1] # b[1] THEN CodeOf[a[1]] < CodeOf[b[1]]
                  ELSE TextLess(Tail(a), Tail(b))
Less(x, y) == IF x[1] = 0 THEN x[2] < y[2] ELSE TextLess(x[2], y[2])
LeastOf(S)    == CHOOSE x \in S : \A y \in S : ~Less(y, x)
GreatestOf(S) == CHOOSE x \in S : \A y \in S : ~Less(x, y)

\* a number becoming a text: its decimal form, e.g. 2.0, -0.25
OrdDigits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE OrdNat(_)
OrdNat(n) == IF n < 10 THEN <<OrdDigits[n + 1]>> ELSE Append(OrdNat(n \div 10), OrdDigits[(n % 10) + 1])
NumText(q) == LET a == IF q < 0 THEN 0 - q ELSE q
                  f == a % 4
              IN (IF q < 0 THEN <<"-">> ELSE <<>>) \o OrdNat(a \div 4) \o <<".">>
                 \o (CASE f = 0 -> <<"0">> [] f = 1 -> <<"2","5">> [] f = 2 -> <<"5">> [] OTHER -> <<"7","5">>)
AsText(x) == IF x[1] = 1 THEN x ELSE <<1, NumText(x[2])>>

NoOrder == [o |-> "none", f |-> <<0, 0>>, l |-> <<0, 0>>, pw |-> FALSE, t |-> 0]

\* the order of one batch of (non-null) values; t = 1: compare as texts
BatchOrder(vs, t) ==
  IF vs = <<>> THEN NoOrder ELSE
  LET tt == IF t = 1 \/ \E i \in 1..Len(vs) : ~IsNumber(vs[i]) THEN 1 ELSE 0
      x  == [i \in 1..Len(vs) |-> IF tt = 1 THEN <<1, vs[i]>> ELSE <<0, Num4(vs[i])>>]
      ups   == \E i \in 1..(Len(x) - 1) : Less(x[i], x[i + 1])
      downs == \E i \in 1..(Len(x) - 1) : Less(x[i + 1], x[i])
  IN [o |-> IF ups /\ downs THEN "random" ELSE IF ups THEN "ascending"
            ELSE IF downs THEN "descending" ELSE "constant value",
      f |-> x[1], l |-> x[Len(x)], pw |-> FALSE, t |-> tt]

Combine(a, b) ==
  IF a.o = "none" THEN b ELSE IF b.o = "none" THEN a ELSE
  LET t  == IF a.t = 1 \/ b.t = 1 THEN 1 ELSE 0
      c(x) == IF t = 1 THEN AsText(x) ELSE x
      af == c(a.f) al == c(a.l) bf == c(b.f) bl == c(b.l)
      lo1 == LeastOf({af, al}) hi1 == GreatestOf({af, al})
      lo2 == LeastOf({bf, bl}) hi2 == GreatestOf({bf, bl})
      in(x, l, h) == Less(l, x) /\ Less(x, h)
      cross == \/ in(lo1, lo2, hi2) \/ in(hi1, lo2, hi2) \/ in(lo2, lo1, hi1) \/ in(hi2, lo1, hi1)
               \/ (lo1 = lo2 /\ hi1 = hi2)
      aAroundB == Less(lo1, lo2) /\ Less(hi2, hi1)
      bAroundA == Less(lo2, lo1) /\ Less(hi1, hi2)
      o == IF a.o = "random" \/ b.o = "random" THEN "random"
           ELSE IF a.o = b.o THEN
             (IF ~cross \/ (a.pw /\ b.pw) \/ (a.pw /\ aAroundB) \/ (b.pw /\ bAroundA)
                 \/ a.o = "constant value" THEN a.o ELSE "random")
           ELSE IF {a.o, b.o} = {"ascending", "descending"} THEN "random"
           ELSE IF ~cross THEN (IF "ascending" \in {a.o, b.o} THEN "ascending" ELSE "descending")
           ELSE IF a.o = "constant value" /\ b.pw THEN b.o
           ELSE IF b.o = "constant value" /\ a.pw THEN a.o
           ELSE "random"
      f == CASE o = "ascending" -> LeastOf({af, bf}) [] o = "descending" -> GreatestOf({af, bf})
             [] OTHER -> LeastOf({af, al, bf, bl})
      l == CASE o = "ascending" -> GreatestOf({al, bl}) [] o = "descending" -> LeastOf({al, bl})
             [] OTHER -> GreatestOf({af, al, bf, bl})
  IN [o |-> o, f |-> f, l |-> l, t |-> t,
      pw |-> ~(o = "random" \/ (o = "constant value" /\ f = l))]
=============================================================================
