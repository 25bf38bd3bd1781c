------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Of a batch of n rows a profile may look at a random sample of k rows    *)
(* only; if at least m values that are not missing are wanted, each column *)
(* goes on, k rows at a time and in the same random order as every other   *)
(* column, until it has found them (or has seen the whole batch).          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

\* Rows looked at by default.
DefaultSize(n, pct) ==
  LET k == (n * pct) \div 100 IN IF n <= 5000 THEN n ELSE IF k > 5000 THEN k ELSE 5000

\* take[j]: the rows column j was looked at in, true[j]: those with a value
RightSize(k0, m, n, take, true) ==
  LET k == IF k0 = 0 \/ k0 > n THEN n ELSE k0 IN
  \A j \in 1..Len(take) :
    LET c == Cardinality(take[j])  t == Cardinality(true[j])
        last == IF c % k = 0 THEN k ELSE c % k IN
    IF m = 0 THEN c = k
    ELSE /\ c > 0 /\ (c % k = 0 \/ c = n)
         /\ t >= m \/ c = n
         /\ c > k => t - last < m            \* the rows before the last k did not do
\* Every column goes through the rows in the same order.
RightRows(m, take) ==
  \A i \in 1..Len(take) : \A j \in 1..Len(take) :
    IF m = 0 THEN take[i] = take[j] ELSE take[i] \subseteq take[j] \/ take[j] \subseteq take[i]
=============================================================================
