------------------------------ MODULE ReadersMC -----------------------------
(***************************************************************************)
(* Every small table, written as delimited text in every way, is recovered *)
(* by the character-level reading: the file determines the table.          *)
(***************************************************************************)
EXTENDS Readers
CONSTANTS MaxCell, Big
VARIABLES T, w
Chars == IF Big = 1 THEN {"a", ",", "\"", "\n", "'"} ELSE {"a", ",", "\"", "\n"}
Cell == UNION {[1..n -> Chars] : n \in 0..MaxCell}
Ws == [d : {",", ";"}, q : {"\"", "'"}, all : {0, 1}, hdr : {0, 1}, skip : {0}, eol : {<<"\n">>, <<"\r", "\n">>}, fin : {0, 1}]
Tables == [cols : {<< <<"h">>, <<"k">> >>}, rows : {<< <<a, b>> >> : a, b \in Cell}]
          \cup [cols : {<< <<"h">> >>}, rows : {<< <<a>>, <<b>> >> : a, b \in Cell}]
Init == T \in Tables /\ w \in Ws
Next == UNCHANGED <<T, w>>
Recover == CsvOk(T, w) =>
   ParseCsv(CsvText(T, w), w.d, w.q) = (IF w.hdr = 1 THEN <<T.cols>> ELSE <<>>) \o T.rows
\* grouping lines into records loses and reorders nothing
Whole == LET t == CsvText(T, w) IN \A k \in 1..3 : FlattenS(Chunks(t, k)) = t
=============================================================================
