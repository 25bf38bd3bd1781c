-------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What a user sees of a profile.  A report is a tree; here it is the set  *)
(* of the paths of its leaves.  The options of a report only select        *)
(* (omit_keys, the compact format, remove_disabled_flag), thin out (the    *)
(* number of quantiles) and render (the format) the plain report.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Options

\* A pattern is a sequence of keys; it takes out the subtrees it leads to.
\* Alike(x, y): x and y are references to columns with the same name.
Leads(pat, path, Alike(_, _)) ==
  /\ Len(pat) <= Len(path)
  /\ \A i \in 1..Len(pat) : pat[i] = "*" \/ pat[i] = path[i] \/ Alike(pat[i], path[i])
\* the table of column positions is one whole
Whole(path) == IF Len(path) > 2 /\ path[1] = "global_stats" /\ path[2] = "profile_schema" THEN SubSeq(path, 1, 2) ELSE path
Details == {"times", "avg_predictions", "data_label_representation", "null_types_index", "histogram"}
Patterns(v) ==
  {v.omit[i] : i \in 1..Len(v.omit)}
  \cup (IF v.fmt = "compact" THEN {<<"data_stats", "*", "statistics", k>> : k \in Details} ELSE {})
Omitted(v, path, Alike(_, _)) == \E pat \in Patterns(v) : Leads(pat, Whole(path), Alike)

\* The statistics of a column that are not computed.
Measures(key) == CASE key \in {"min", "max", "sum", "variance", "skewness", "kurtosis"} -> {key}
                   [] key = "mean" -> {"sum"} [] key = "stddev" -> {"variance"}
                   [] key \in {"histogram", "quantiles"} -> {"hist"}
                   [] key \in {"mode", "median"} -> {key, "hist"}
                   [] key = "median_abs_deviation" -> {"mad", "hist"}
                   [] key = "num_zeros" -> {"zeros"} [] key = "num_negatives" -> {"negs"}
                   [] OTHER -> {}
Uncomputed(off, dt, key) ==
  \/ dt \in Types /\ \E x \in Measures(key) : Dis(off, x, dt)
  \/ dt = "string" /\ key = "vocab" /\ "vocab" \in off
  \/ dt = "float" /\ key = "precision" /\ "prec" \in off
Disabled(off, dt(_), c, path) ==
  c > 0 /\ Len(path) > 3 /\ path[3] = "statistics" /\ Uncomputed(off, dt(c), path[4])

\* Groups of quantiles: g - 1 of the 999 (the i-th divides the values at i/g).
Groups(g) == IF g \in 1..1000 THEN g ELSE 4
RankOf(i, g) == ((i * 1000 + g - 1) \div g) - 1
=============================================================================
