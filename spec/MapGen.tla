------------------------------- MODULE MapGen -------------------------------
(* Single applications of linear maps, rescalings and evaluations, for      *)
(* MapTrace.  All inputs derive from the seed.                              *)
EXTENDS Ring, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Kind == IOEnv.KIND    \* "maps" or "nums"

VARIABLES i
S == Mix(1 + (((Seed0 * 9001) + (i * 613)) % 2000000))
N == RS(S, 1, <<2, 4, 8, 16, 32, 64, 128>>)
Toy == RS(S, 2, <<"toy7681", "toy12289", "toy40961">>)
PT == CASE Toy = "toy7681" -> 7681 [] Toy = "toy12289" -> 12289 [] Toy = "toy40961" -> 40961
Real == RS(S, 2, <<"zp127", "zp110", "zp220", "zp440", "zp880", "zp240">>)
Vec(q, n, p) == LET w == R(q, 1, 4) at == 1 + R(q, 2, n) IN
  TLCEval([j \in 1..n |-> IF w = 0 THEN (IF j = at THEN 1 ELSE 0)
                          ELSE IF p = 0 THEN RR(q, j, -100, 100)
                          ELSE LET e == R(q, j, 8) IN IF e = 0 THEN 0 ELSE IF e = 1 THEN p - 1 ELSE R(q, j + 7000, p)])
Odd == LET b == (2 * R(S, 3, 2 * N)) + 1 IN RS(S, 4, <<b, b - (2 * N), b + (2 * N * 500), -1, (2 * N) - 1, N + 1, 1 - (2 * N * 77), b, b>>)
PosOdd == LET b == (2 * R(S, 3, 2 * N)) + 1 IN RS(S, 4, <<b, b + (2 * N * 500), (2 * N) - 1, N + 1, b, b, b>>)

Maps == LET k == RS(S, 5, <<"ntt", "autc", "autn">>)
            real == k = "autc" /\ R(S, 6, 2) = 0
            p == IF real THEN 0 ELSE PT
        IN [kind |-> k, n |-> N, p |-> p, field |-> IF real THEN Real ELSE Toy, k |-> IF k = "ntt" THEN 1 ELSE PosOdd,
            v |-> Vec(PM(S), N, p), u |-> Vec(PM((S \div 2) + 1), N, p), q |-> 0, qp |-> FALSE, x |-> 0]

\* Rescaling: the modulus is q, or q times the field modulus.
Switch == LET real == R(S, 7, 2) = 0
              p == IF real THEN 0 ELSE PT
              lim == IF real THEN 100000000 ELSE 500000000 \div PT
              q == IF real THEN RS(S, 8, <<1, 2, 3, 4, 1 + R(S, 9, 1000), 1 + R(S, 10, 1000000)>>)
                   ELSE RS(S, 8, <<2, 3, 1 + R(S, 9, 100), PT - 1, PT + 1, 2 * PT, 1 + R(S, 10, lim), 1 + R(S, 11, lim), 4096, 65536>>)
              C(j) == LET t == R(PM(S), j, 6) IN
                      IF t = 0 THEN q \div 2 ELSE IF t = 1 THEN (q \div 2) + 1 ELSE IF t = 2 THEN q - 1
                      ELSE IF t = 3 THEN R(S, 100 + j, q) ELSE RR(S, 300 + j, -lim, lim)
              Cap(x) == IF x > lim THEN lim ELSE x
          IN [kind |-> "switch", n |-> N, p |-> p, field |-> IF real THEN Real ELSE Toy, k |-> 0,
              v |-> [j \in 1..N |-> Cap(C(j))], u |-> <<>>, q |-> q, qp |-> real, x |-> 0]

Eval == LET m == RS(S, 12, <<0, 1, 2, 3, 5, 8, 17, 64, 100, 1 + R(S, 13, 200)>>)
        IN [kind |-> "eval", n |-> m, p |-> PT, field |-> Toy, k |-> 0, v |-> IF m = 0 THEN <<>> ELSE Vec(PM(S), m, PT), u |-> <<>>, q |-> 0, qp |-> FALSE,
            x |-> RS(S, 14, <<0, 1, PT - 1, R(S, 15, PT), R(S, 16, PT), R(S, 17, PT)>>)]

Case == IF Kind = "maps" THEN Maps ELSE IF i % 3 = 0 THEN Eval ELSE Switch
Init == i \in 1..Count /\ PrintT(ToJson(TLCEval(Case)))
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
