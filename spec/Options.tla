------------------------------- MODULE Options ------------------------------
(***************************************************************************)
(* Statistics can be switched off.  A profile's `off` is the set of the    *)
(* names of those that are: a statistic of numbers for all types ("min")   *)
(* or for the columns of one type ("float.min"), a whole type ("int"), a   *)
(* statistic of the table ("nullrows").                                    *)
(*                                                                         *)
(* Switching a statistic off takes it out of the report and changes        *)
(* nothing else; some need others to be on (Coherent).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Types == {"int", "float", "string"}
Numerical == {"min", "max", "sum", "variance", "skewness", "kurtosis", "hist", "mode", "median", "mad", "zeros", "negs"}
\* is statistic x of columns of type dt switched off?
Dis(off, x, dt) == x \in off \/ (dt \o "." \o x) \in off

\* what a statistic is computed from
Needs(x) == CASE x = "variance" -> {"sum"} [] x = "skewness" -> {"sum", "variance"}
              [] x = "kurtosis" -> {"sum", "variance", "skewness"}
              [] x \in {"mode", "median", "mad"} -> {"hist"} [] OTHER -> {}
Coherent(off) ==
  /\ \A dt \in Types : \A x \in Numerical : ~Dis(off, x, dt) => \A y \in Needs(x) : ~Dis(off, y, dt)
  /\ "category" \in off => "chi2" \in off

\* Profiles can be added only if they compute the same kinds of statistics.
Parts == {"int", "float", "datetime", "string", "order", "category", "rowstats", "uniqrows", "nullrows"}
SameParts(a, b) == a \cap Parts = b \cap Parts

\* The table's statistics are off together or one by one.
NoUniqRows(off) == off \cap {"rowstats", "uniqrows"} # {}
NoNullRows(off) == off \cap {"rowstats", "nullrows"} # {}

\* Least coherent extension of a choice of statistics to switch off.
RECURSIVE Coherently(_, _)
Coherently(off, k) ==
  LET bad == {p \in Types \X Numerical : ~Dis(off, p[2], p[1]) /\ \E y \in Needs(p[2]) : Dis(off, y, p[1])}
  IN IF k = 0 \/ bad = {} THEN off \cup (IF "category" \in off THEN {"chi2"} ELSE {})
     ELSE Coherently(off \cup {p[1] \o "." \o p[2] : p \in bad}, k - 1)
=============================================================================
