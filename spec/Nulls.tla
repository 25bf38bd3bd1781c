------------------------------- MODULE Nulls --------------------------------
(***************************************************************************)
(* Which cells are missing values under each options preset the            *)
(* conformance driver uses (structured.py: options).                       *)
(***************************************************************************)
EXTENDS Text

StartsWith(c, p) == Len(c) >= Len(p) /\ SubSeq(c, 1, Len(p)) = p
\* preset "nulls": null_values = {"", "0", "nan" and "red" in any case, "x...", "-1"}
CustomNull(c) == \/ c \in { <<>>, <<"0">>, <<"-","1">> }
                 \/ Len(c) <= 3 /\ Lower(c) \in { <<"r","e","d">>, <<"n","a","n">> }
                 \/ StartsWith(c, <<"x">>)
\* preset "colnulls": the defaults, plus "5", "a" in column 1 and "1..." in column 2
ColNull(j, c) == \/ DefaultNull(c)
                 \/ j = 1 /\ c \in { <<"5">>, <<"a">> }
                 \/ j = 2 /\ StartsWith(c, <<"1">>)
IsNull(cfg, j, c) == CASE cfg = "nulls" -> CustomNull(c)
                       [] cfg = "colnulls" -> ColNull(j, c)
                       [] OTHER -> DefaultNull(c)
=============================================================================
