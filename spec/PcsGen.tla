------------------------------- MODULE PcsGen -------------------------------
(* Draws histories of commitments and openings, from SEED.                  *)
EXTENDS Ring, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
MaxCap == atoi(IOEnv.MAXCAP)

VARIABLES i
S == Mix(1 + (((Seed0 * 6007) + (i * 401)) % 2000000))

Toy == R(S, 1, 3) < 2
PT == IF Toy THEN 25601 ELSE 0
Field == IF Toy THEN "toy25601" ELSE RS(S, 2, <<"zp127", "zp110", "zp220", "zp440", "zp880", "zp240">>)
Batch == RS(S, 3, <<1, 1, 2, 3, 4, 5, 7>>)
Cap == RS(S, 4, <<1, 2, 3, 1 + R(S, 5, 20), 1 + R(S, 6, 200), 64, 127, 128, 129, 1 + R(S, 7, MaxCap), 1 + R(S, 8, MaxCap), MaxCap>>)
\* lengths around the edges of the layout (lengths beyond the capacity asked for stay within what the layout offers)
LenOf(q) == RS(q, 1, <<0, 1, Cap, Cap, Cap, IF Cap > 1 THEN Cap - 1 ELSE 1, R(q, 2, Cap + 1), R(q, 3, Cap + 1), IF Cap > 128 THEN 128 ELSE Cap, IF Cap > 128 THEN 129 ELSE Cap>>)
NPoly == Batch + 2
\* over the integers the values stay small
Coef(q, j) == IF Toy THEN LET e == R(q, j, 6) IN IF e = 0 THEN 0 ELSE IF e = 1 THEN PT - 1 ELSE R(q, j + 5000, PT) ELSE RR(q, j, -3, 3)
PolyOf(v) == LET q == PM((S \div 2) + (v * 17)) IN [j \in 1..LenOf(q) |-> Coef(q, 10 + j)]
Points == IF Toy THEN <<R(S, 20, PT), RS(S, 21, <<0, 1, PT - 1, R(S, 22, PT)>>), R(S, 23, PT)>> ELSE <<1, -1, 0>>

Act(op, crs, q, v, coms, x, o, w) == [op |-> op, crs |-> crs, q |-> q, v |-> v, coms |-> coms, x |-> x, o |-> o, w |-> w]
Verify(crs, o, coms, x, w) == Act("verify", crs, 0, 0, coms, x, o, w)
Seg(a) == [j \in 1..Batch |-> a + j - 1]
Rot(c) == IF Len(c) < 2 THEN c ELSE Append(Tail(c), Head(c))

\* commitments 1..NPoly by prover 1, one more of polynomial 1 by prover 3 (a copy of 1), NPoly under the other CRS
Acts ==
  <<Act("prover", 1, 0, 0, <<>>, 0, 0, 0), Act("prover", 2, 0, 0, <<>>, 0, 0, 0), Act("copy", 0, 1, 0, <<>>, 0, 0, 0)>>
  \o [v \in 1..NPoly |-> Act("commit", 0, IF R(S, 30 + v, 2) = 0 THEN 1 ELSE 3, v, <<>>, 0, 0, 0)]
  \o <<Act("commit", 0, 3, 1, <<>>, 0, 0, 0)>>
  \o (LET a == Seg(1) b == Seg(3) IN
      <<Act("open", 0, 1, 0, a, 1, 0, 0), Verify(1, 1, a, 1, 1),
        Act("open", 0, 3, 0, a, 2, 0, 0), Verify(1, 2, a, 2, 2), Verify(1, 1, a, 1, 1),
        Act("open", 0, 1, 0, b, 1, 0, 0), Verify(1, 3, b, 1, 3),
        Verify(2, 1, a, 1, 1), Verify(1, 1, a, 3, 1), Verify(1, 1, b, 1, 1), Verify(1, 1, a, 1, 2), Verify(1, 2, a, 1, 1),
        Verify(1, 1, Rot(a), 1, 1), Verify(1, 1, [a EXCEPT ![1] = NPoly + 1], 1, 1),
        Act("open", 0, 1, 0, Rot(a), 3, 0, 0), Verify(1, 4, Rot(a), 3, 4),
        \* the same commitment several times in one batch
        Act("open", 0, 1, 0, [j \in 1..Batch |-> NPoly + 1], 3, 0, 0), Verify(1, 5, [j \in 1..Batch |-> NPoly + 1], 3, 5),
        Verify(1, 4, Rot(a), 3, 4), Verify(1, 1, a, 1, 1)>>)

\* Acts 6 to 9 (the prover), 10 to 13 (a copy), 14 to 17 (a copy of the copy) and 18 to 20 (the verifier) at the same time.
Together ==
  <<Act("prover", 1, 0, 0, <<>>, 0, 0, 0), Act("copy", 0, 1, 0, <<>>, 0, 0, 0), Act("copy", 0, 2, 0, <<>>, 0, 0, 0),
    Act("commit", 0, 1, 1, <<>>, 0, 0, 0), Act("open", 0, 1, 0, [j \in 1..Batch |-> 1], 1, 0, 0)>>
  \o (LET p(q, first) == LET b == [j \in 1..Batch |-> IF (j % 2) = 0 THEN first ELSE first + 1] IN
         <<Act("commit", 0, q, 1 + R(S, 50 + q, NPoly), <<>>, 0, 0, 0), Act("commit", 0, q, 1 + R(S, 60 + q, NPoly), <<>>, 0, 0, 0),
           Act("open", 0, q, 0, b, 2, 0, 0), Act("open", 0, q, 0, b, 3, 0, 0)>>
      IN p(1, 2) \o p(2, 4) \o p(3, 6))
  \o (LET a == [j \in 1..Batch |-> 1] IN <<Verify(1, 1, a, 1, 1), Verify(1, 1, a, 1, 1), Verify(1, 1, a, 1, 1)>>)
  \o (LET c(first) == [j \in 1..Batch |-> IF (j % 2) = 0 THEN first ELSE first + 1] IN
      <<Verify(1, 2, c(2), 2, 2), Verify(1, 3, c(2), 3, 3), Verify(1, 4, c(4), 2, 4), Verify(1, 5, c(4), 3, 5), Verify(1, 6, c(6), 2, 6),
        Verify(1, 7, c(6), 3, 7), Verify(1, 1, [j \in 1..Batch |-> 1], 1, 1), Verify(1, 2, c(2), 1, 2),
        Act("commit", 0, 1, 1, <<>>, 0, 0, 0), Act("open", 0, 1, 0, [j \in 1..Batch |-> 8], 1, 0, 0), Verify(1, 8, [j \in 1..Batch |-> 8], 1, 8)>>)

Case == [field |-> Field, p |-> PT, cap |-> Cap, batch |-> Batch, polys |-> [v \in 1..NPoly |-> PolyOf(v)], points |-> Points, acts |-> IF IOEnv.MODE = "together" THEN Together ELSE Acts]
Init == i \in 1..Count /\ PrintT(ToJson(Case))
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
