------------------------------- MODULE Params -------------------------------
(* What derived parameters of the commitment scheme must satisfy.           *)
(* Large integers are little-endian sequences of limbs of 12 bits;          *)
(* logarithms to base 2 are in thousandths.                                 *)
EXTENDS Limbs, FiniteSets

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Pow2(n) == n >= 1 /\ 2 ^ Log2(n) = n

\* ----- the layout -----
Covers(t) == t.rank >= t.target /\ t.bat = t.batch
Layout(t) == t.rank = t.cols * (t.rows - 1) * t.slots /\ t.rows >= 2 /\ t.cols >= 1
\* digits in the base, read modulo base^exp + 1, are the field
Digits(t) == Inc(Power(t.base, t.exp)) = t.mod
Room(t) == t.slots * t.exp = t.n /\ Pow2(t.n) /\ t.slots >= 1 /\ t.nout = t.n
\* the rings: distinct primes splitting the ring, wide enough to decompose into
Prime(t, q) == /\ \A i \in 1..Len(q) : q[i].pr /\ ModSmall(q[i].m, 2 * t.n) = 1
               /\ \A i, j \in 1..Len(q) : i # j => q[i].m # q[j].m
Moduli(t) == Len(t.q) >= 1 /\ Len(t.qout) >= 1 /\ Prime(t, t.q) /\ Prime(t, t.qout)
Decompose(t) == t.dcmp = (t.cols + 1) * t.in

\* ----- hardness -----
LogOf(q) == FoldLeft(LAMBDA x, y : x + y.log, 0, q)
\* one-norm bound of a challenge: sqrt(exp) * bound
COne(t) == (500 * Log2(t.exp)) + t.challog
DExt(t) == IF t.batch = 1 THEN 0 ELSE 1000 + COne(t)
CExt(t) == IF t.batch = 1 THEN 1000 + COne(t) ELSE 2 * (1000 + COne(t))
Ext(t) == IF t.batch = 1 THEN 1000 + t.res ELSE 1000 + (1000 + COne(t)) + t.res
\* norms of the short vectors two accepted openings would give
BetaIn(t) == 1000 + DExt(t) + CExt(t) + Ext(t)
BetaOut(t) == 2000 + DExt(t) + t.comn
\* rank * 4 * N * log q * log 1.005 >= (log beta)^2, in hundredths of a bit, half a hundredth allowed
Hard(beta, n, rank, logq) == LET b == (beta - 5) \div 10 IN (rank * n) * ((((logq + 5) \div 10) * 28782) \div 10000) >= b * b
Binding(t) == /\ BetaIn(t) - 5 <= LogOf(t.q) /\ Hard(BetaIn(t), t.n, t.in, LogOf(t.q))
              /\ BetaOut(t) - 5 <= LogOf(t.qout) /\ Hard(BetaOut(t), t.n, t.out, LogOf(t.qout))
\* the hiding term: 2^13 coefficients, modulus of at most 240 bits
Hiding(t) == t.mlwe * t.n >= 8192 /\ LogOf(t.q) <= 240100

Sane(t) == t.chal >= 1 /\ \A s \in {t.std[i] : i \in 1..Len(t.std)} \cup {t.sizes[i] : i \in 1..Len(t.sizes)} : s > -1000000

Works(t) == t.use => t.acc /\ t.val
Judges(t) == t.use => ~t.false

\* within the range in which the arithmetic here is meant
Within(x, a, b) == a <= x /\ x <= b
Plausible(t) == /\ Within(t.exp, 1, 4096) /\ Within(t.slots, 1, 65536) /\ Within(t.n, 1, 65536) /\ Within(t.cols, 1, 30000) /\ Within(t.rows, 1, 2000000000)
                /\ Within(t.in, 1, 110) /\ Within(t.out, 1, 110) /\ Within(t.mlwe, 1, 20000) /\ Len(t.base) <= 6 /\ Len(t.base) * t.exp <= 200
                /\ \A x \in {t.res, t.comn, t.challog, t.batlog} : Within(x, 0, 200000)
                /\ Len(t.q) <= 8 /\ Len(t.qout) <= 8 /\ Within(LogOf(t.q), 1000, 300000) /\ Within(LogOf(t.qout), 1000, 300000)
                /\ Within(t.rank, 1, 2000000000) /\ (t.rank \div t.cols) + 1 >= t.rows - 1 /\ ((t.rank \div t.cols) \div (t.rows - 1)) + 1 >= t.slots

Faults(t) ==
  IF t.end # "ok" THEN {"end:" \o t.end}
  ELSE IF ~Plausible(t) THEN {"implausible"}
  ELSE {r[1] : r \in {x \in {<<"capacity", Covers(t)>>, <<"layout", Layout(t)>>, <<"digits", Digits(t)>>, <<"room", Room(t)>>, <<"moduli", Moduli(t)>>,
                              <<"decomposition", Decompose(t)>>, <<"hardness", Binding(t)>>, <<"hiding", Hiding(t)>>, <<"sane", Sane(t)>>,
                              <<"works", Works(t)>>, <<"judges", Judges(t)>>, <<"repeatable", t.again>>} : ~x[2]}}
=============================================================================
