------------------------------- MODULE Prng -------------------------------
(* Pure pseudo-random choices.  A builder action draws ONE integer seed    *)
(* (nondeterministically, RandomElement under -simulate) and derives every *)
(* structured value from it, so that a value never changes on              *)
(* re-evaluation.                                                          *)
EXTENDS Integers, Sequences, TLC

PMmod == 2147483647
\* Park-Miller step by Schrage's method: stays within 32-bit integers.
PM(x) == LET t == 16807 * (x % 127773) - 2836 * (x \div 127773)
         IN IF t <= 0 THEN t + PMmod ELSE t

\* A non-linear step, so that choices from neighbouring seeds are not correlated.
Mix(x) == PM(1 + (((x % 46337) * (x % 46337)) + (x \div 46337)))

\* R(s, i, m): the i-th choice derived from seed s, in 0..m-1.
R(s, i, m) == LET y == Mix(PM(1 + ((((s % 1000003) * 1009) + (i * 7919) + (s \div 1000003)) % (PMmod - 1))))
              IN (y \div 64) % m

\* In lo..hi.
RR(s, i, lo, hi) == lo + R(s, i, hi - lo + 1)

\* A choice among the elements of a sequence.
RS(s, i, q) == q[1 + R(s, i, Len(q))]

Seeds == 1..2000000000
===========================================================================
