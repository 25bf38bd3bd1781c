-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* A deterministic pseudo-random stream (Wichmann-Hill) used by the        *)
(* generator modules to sample behaviours of a specification.  A stream    *)
(* position is a triple; the i-th draw of position r is a pure function of *)
(* (r, i), so every sampled behaviour is determined by its seed alone and  *)
(* TLC produces the same behaviours with any number of workers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

RSeed(s) == << ((s * 7919) % 30268) + 1, ((s * 104729) % 30306) + 1,
               ((s * 1299) % 30322) + 1 >>
RNext(r) == << (171 * r[1]) % 30269, (172 * r[2]) % 30307, (170 * r[3]) % 30323 >>

RECURSIVE RSkip(_, _)
RSkip(r, k) == IF k = 0 THEN r ELSE RSkip(RNext(r), k - 1)

\* An independent sub-stream k of position r.
RSub(r, k) == RNext(RNext(RNext(
   << ((r[1] * 31 + k * 7919) % 30268) + 1, ((r[2] * 37 + k * 104) % 30306) + 1,
      ((r[3] * 41 + k * 1299) % 30322) + 1 >>)))

\* A number in 0..n-1 read from position r (n below 30000).
RVal(r, n) == IF n <= 1 THEN 0 ELSE (r[1] + 2 * r[2] + 3 * r[3] + (r[1] \div 97)) % n
\* A number in lo..hi.
RIn(r, lo, hi) == lo + RVal(r, hi - lo + 1)
\* An element of a non-empty sequence.
RPick(r, s) == s[RVal(r, Len(s)) + 1]
\* True with probability p percent.
RChance(r, p) == RVal(r, 100) < p

\* k consecutive positions starting at r, as a sequence.
RECURSIVE RStream(_, _)
RStream(r, k) == IF k = 0 THEN <<>> ELSE <<r>> \o RStream(RNext(r), k - 1)

\* A pseudo-random permutation (selection) of the elements of sequence s.
RECURSIVE RShuffle(_, _)
RShuffle(r, s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET k == RVal(r, Len(s)) + 1
           rest == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
       IN <<s[k]>> \o RShuffle(RNext(r), rest)
=============================================================================
