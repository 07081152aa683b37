------------------------------ MODULE BlindGen ------------------------------
(* Draws commitments whose openings are measured: over the toy field 257    *)
(* (matrix of few cells) for the freedom of the partial values, and over    *)
(* the library's fields for freshness and noise.                            *)
EXTENDS Integers, Sequences, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
What == IOEnv.WHAT

VARIABLES k
Fields == <<"zp127", "zp110", "zp220", "zp240", "zp440", "zp880">>
Case(i) ==
  LET s == Mix(PM(1 + (Seed0 % 100000) * 1000 + i))
      \* from 400 on there are several columns
      cap == CASE What = "rank" -> RS(s, 1, <<1, 20, 33, 64, 100, 130, 200, 300, 600, 700, 1200, 2500>>)
               [] What = "noise" -> RS(s, 1, <<1, 200, 600>>)
               [] OTHER -> RS(s, 1, <<1, 60, 300, 1500, 3000>>)
      cnt == IF What = "rank" THEN RR(s, 2, 1, 3) ELSE 1
      len(j) == CASE R(s, 10 * j, 3) = 0 -> cap
                  [] R(s, 10 * j, 3) = 1 -> RR(s, (10 * j) + 1, 1, cap)
                  [] OTHER -> RR(s, (10 * j) + 2, 1, IF cap < 8 THEN cap ELSE 8)
      long(j) == IF What = "rank" /\ len(j) > 300 THEN 65 + (len(j) % 136) ELSE len(j)
  IN [kind |-> "pcs", what |-> What, field |-> IF What = "rank" THEN "toy257" ELSE Fields[1 + ((i - 1) % 6)],
      cap |-> cap, lens |-> [j \in 1..cnt |-> long(j)], seed |-> s]

Init == k = 1
Next == k <= Count /\ PrintT(ToJson(Case(k))) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
