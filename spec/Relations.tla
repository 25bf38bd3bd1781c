------------------------------ MODULE Relations -----------------------------
(***************************************************************************)
(* What a profile says about pairs of columns.                             *)
(***************************************************************************)
EXTENDS Profiler

NumAt(p, j) == [i \in 1..Len(p.h[j]) |-> Facts(p.h[j][i]).val]      \* of a column of numbers without nulls
Dot(x, y) == FoldLeft(LAMBDA a, i : a + x[i] * y[i], 0, [i \in 1..Len(x) |-> i])
Total(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)

\* n^2 times the covariance of two complete columns of numbers (of 4 * value)
Cov(x, y) == Len(x) * Dot(x, y) - Total(x) * Total(y)

\* Chi-squared statistic of the category counts a and b of two columns with
\* n and m values, in hundredths (each category rounded down).
Times100(a, n, b, m, c) ==
  LET x == IF c \in DOMAIN a THEN a[c] ELSE 0
      y == IF c \in DOMAIN b THEN b[c] ELSE 0
      d == x * m - y * n
  IN (100 * d * d) \div ((x + y) * n * m)
Chi100(a, n, b, m) == FoldSet(LAMBDA c, acc : acc + Times100(a, n, b, m, c), 0, DOMAIN a \cup DOMAIN b)

\* Sum of the numbers of column k over the rows in which column j is missing.
SumWhere(p, j, k, null(_, _)) ==
  FoldLeft(LAMBDA acc, i : IF null(j, p.h[j][i]) /\ ~null(k, p.h[k][i])
                           THEN acc + Facts(p.h[k][i]).val ELSE acc,
           0, [i \in 1..NRows(p) |-> i])
=============================================================================
