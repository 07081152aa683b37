------------------------------ MODULE ParamsGen ------------------------------
(* Draws fields, capacities and batch sizes, from SEED.                      *)
EXTENDS Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
MaxUse == atoi(IOEnv.MAXUSE)
Use == IOEnv.USE = "yes"
VARIABLES i
S == Mix(1 + (((Seed0 * 5003) + (i * 719)) % 2000000))
Field == RS(S, 1, <<"zp110", "zp127", "zp220", "zp240", "zp440", "zp880", "toy25601", "toy257">>)
\* cells per column and row: 256 / exp, around which layouts change
Slots == CASE Field \in {"zp110", "zp127", "toy257"} -> 32 [] Field \in {"zp220", "zp240"} -> 16 [] Field = "zp440" -> 8 [] Field = "zp880" -> 4 [] OTHER -> 128
Max2(a, b) == IF a > b THEN a ELSE b
Near(x) == Max2(1, x + RS(S, 2, <<-1, 0, 0, 1, R(S, 3, 5)>>))
Target == IF Use
          THEN LET x == RS(S, 4, <<1, 2, 3, R(S, 5, 64), Slots, Near(Slots), Near(Slots * (1 + R(S, 5, 8))), Near(Slots * (2 ^ R(S, 5, 5))), 1 + R(S, 6, MaxUse), 1 + R(S, 7, MaxUse)>>)
               IN IF x > MaxUse THEN MaxUse ELSE IF x < 1 THEN 1 ELSE x
          ELSE RS(S, 4, <<1 + R(S, 5, 16), 1 + R(S, 5, 300), 1 + R(S, 5, 5000), Near(Slots * (1 + R(S, 5, 200))), Near(2 ^ R(S, 5, 26)), Near(Slots * (2 ^ R(S, 5, 20))),
                          (2 ^ R(S, 5, 20)) + R(S, 6, 2 ^ (1 + R(S, 7, 20))), 1 + R(S, 5, 100000000)>>)
Batch == IF Use THEN IF Target <= 40 /\ R(S, 10, 3) = 0 THEN 30 + R(S, 9, 100) ELSE RS(S, 8, <<1, 1, 2, 3, 1 + R(S, 9, 6)>>) ELSE RS(S, 8, <<1, 1, 1, 2, 3, 1 + R(S, 9, 12), 1 + R(S, 9, 200), 2 ^ R(S, 9, 20)>>)
Case == [field |-> Field, target |-> Target, batch |-> Batch, use |-> Use]
Init == i \in 1..Count /\ PrintT(ToJson(Case))
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
