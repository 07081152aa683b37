------------------------------ MODULE GaussGen ------------------------------
(* Centres and deviations for the Gaussian samplers.  small: centre a + k/K *)
(* and deviation sqrt(d1 d2 / 2) / K (discrete), / 2K (rounded); wide: the  *)
(* deviation is 2^e / 16 * sqrt(d1 d2 / 2), counted in buckets of 2^e.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Power == atoi(IOEnv.POWER)

At(t) == Mix(1 + (((Seed0 * 6151) + (t * 30011)) % 2000000000))
RECURSIVE Isqrt(_, _)
Isqrt(x, r) == IF r * r >= x THEN r ELSE Isqrt(x, r + 1)

Kinds == <<"twin", "cosac", "twin", "rounded", "coset", "cosac">>
Scale(kind, q) == IF kind \in {"cosac", "rounded"} /\ R(q, 1, 3) = 0 THEN "wide" ELSE "small"
\* integer parts of centres
As == <<0, 0, 1, -1, -2, 5, 1000003, -1000003, 1073741824, -1073741824>>

Case(t) ==
  LET q == At(t)
      kind == Kinds[1 + (t % Len(Kinds))]
      scale == Scale(kind, q)
      base == [key |-> t, kind |-> kind, scale |-> scale, h |-> Power, copy |-> R(q, 2, 3) = 0, seed |-> R(q, 3, 1000000), a |-> RS(q, 4, As), k |-> 0, kk |-> 1, e |-> 0]
  IN CASE scale = "wide" ->
          LET d == RS(q, 5, <<2048, 4000, 8192, 20001, 40000>>)
              r == 1 + ((9 * Isqrt(d \div 2, 1)) \div 16)
          IN base @@ [d1 |-> d, d2 |-> 1, points |-> 8, step |-> 2, o |-> 1, lo |-> 0 - r, hi |-> r - 1, mid |-> r] @@ [x |-> RS(q, 6, <<12, 13, 20, 28, 36>>)]
       [] kind = "rounded" ->
          LET K == 16
              k == R(q, 7, K)
              v == RS(q, 8, <<1, 2, 3, 4, 9, 20>>)      \* variance, times two: d = 2 s^2 (2K)^2
              r == 2 + (9 * Isqrt((v + 1) \div 2, 1))
          IN [base EXCEPT !.k = k, !.kk = K] @@ [d1 |-> v, d2 |-> 4 * K * K, points |-> K, step |-> 2, o |-> (1 - K) - (2 * k), lo |-> 0 - r, hi |-> r + 1, mid |-> r + RR(q, 9, 0, 1)] @@ [x |-> 0]
       [] OTHER ->
          LET K == 512
              k == CASE R(q, 10, 4) = 0 -> 4 * R(q, 7, 128)                  \* on the grid of the tables
                     [] R(q, 10, 4) = 1 -> RR(q, 7, 509, 511)                \* behind the last table
                     [] R(q, 10, 4) = 2 -> RR(q, 7, 1, 3)
                     [] OTHER -> R(q, 7, K)
              v == RS(q, 8, <<128, 128, 150, 200, 512, 1500, 9000, 60000>>)  \* variance, times 128
              r == 2 + (9 * Isqrt((v + 127) \div 128, 1))
          IN [base EXCEPT !.k = k, !.kk = K] @@ [d1 |-> v, d2 |-> 4096, points |-> 1, step |-> K, o |-> 0 - k, lo |-> 0 - r, hi |-> r + 1, mid |-> r + RR(q, 9, 0, 1)] @@ [x |-> 0]

VARIABLE t
Init == t \in 1..Count /\ PrintT(ToJson(Case(t)))
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
=============================================================================
