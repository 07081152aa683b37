------------------------------ MODULE RingGen ------------------------------
(* Programs for the register machine of Ring: one behaviour per program,    *)
(* choices derived from the seed.  ALIAS = "yes" makes most destinations    *)
(* one of the operands.  With integer coefficients the generator keeps a    *)
(* bound on every register below 2^30.                                      *)
EXTENDS Ring, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Length == atoi(IOEnv.LENGTH)
MaxN == atoi(IOEnv.MAXN)
Alias == IOEnv.ALIAS = "yes"
Kind == IOEnv.KIND        \* "all", or "aut", "quo" to favour those operations
NR == 4

VARIABLES i, k, flags, bnd, prog
vars == <<i, k, flags, bnd, prog>>

S0 == PM(1 + (((Seed0 * 9001) + (i * 613)) % 2000000))
Ring_ == IF Kind = "aut" THEN "cyclotomic" ELSE IF Kind = "quo" THEN "cyclic" ELSE RS(S0, 1, <<"cyclic", "cyclotomic">>)
Ns == SelectSeq(<<2, 4, 8, 16, 32, 64, 128, 256, 512>>, LAMBDA x : x <= MaxN)
N == Ns[1 + ((i + Seed0) % Len(Ns))]
Field == IF i % 3 = 0 THEN RS(S0, 3, <<"zp127", "zp110", "zp220", "zp440", "zp880", "zp240">>)
         ELSE IF N > 256 THEN RS(S0, 3, <<"toy12289", "toy40961">>) ELSE RS(S0, 3, <<"toy7681", "toy12289", "toy40961">>)
P == CASE Field = "toy7681" -> 7681 [] Field = "toy12289" -> 12289 [] Field = "toy40961" -> 40961 [] OTHER -> 0

S == Mix((S0 \div 2) + (k * 104729))
Limit == 1000000000

Rep(q, j) == IF P = 0 THEN RR(q, j, -3, 3)
             ELSE LET e == R(q, j, 6) IN IF e = 0 THEN 0 ELSE IF e = 1 THEN P - 1 ELSE R(q, j + 7000, P)
\* dense, sparse, or a monomial
RVec(q) == LET w == R(q, 1, 5) IN
  TLCEval([j \in 1..N |-> IF w = 0 THEN (IF j = 1 + R(q, 2, N) THEN Rep(q, j) ELSE 0)
                          ELSE IF w = 1 /\ R(q, j + 20000, 3) > 0 THEN 0 ELSE Rep(q, j)])
\* number of nonzero coefficients is at most N
Scal(q) == IF P = 0 THEN RR(q, 5, -5, 5) ELSE RS(q, 5, <<0, 1, P - 1, R(q, 6, P), R(q, 7, P)>>)
EvalAt(q) == IF P = 0 THEN RS(q, 5, <<0, 1, -1>>) ELSE Scal(q)

Regs(pred(_)) == SelectSeq([r \in 1..NR |-> r], pred)
Fst == 1 + R(S, 10, NR)
SameAs == Regs(LAMBDA r : flags[r] = flags[Fst])
Snd == RS(S, 11, SameAs)
Dst == IF Alias /\ R(S, 12, 4) > 0 THEN RS(S, 13, <<Fst, Snd>>) ELSE 1 + R(S, 14, NR)
DstSame == IF Alias /\ R(S, 12, 4) > 0 THEN RS(S, 13, <<Fst, Snd>>) ELSE RS(S, 14, SameAs)
Other(d) == 1 + (d % NR)

Menu ==
  LET any == <<"Add", "AddTo", "Sub", "SubTo", "Neg", "NegTo", "ScalarMul", "ScalarMulTo", "ScalarMulAddTo", "ScalarMulSubTo",
               "CopyFrom">>
      coef == <<"NTT", "NTTTo", "NTTTo", "NTT", "Evaluate", "Poke", "Poke", "Clear">>
      ntt == <<"InvNTT", "InvNTTTo", "Mul", "MulTo", "MulTo", "MulAddTo", "MulSubTo">>
      aut == IF Ring_ = "cyclotomic" THEN (IF Kind = "aut" THEN [j \in 1..16 |-> IF j % 2 = 0 THEN "Aut" ELSE "AutTo"] ELSE <<"Aut", "AutTo">>) ELSE <<>>
      quo == IF Ring_ = "cyclic" THEN (IF Kind = "quo" THEN [j \in 1..14 |-> IF j % 3 = 0 THEN "Evaluate" ELSE "QuoRem"] ELSE <<"QuoRem">>) ELSE <<>>
  IN any \o aut \o (IF flags[Fst] THEN ntt ELSE coef \o quo)
Name == RS(S, 15, Menu)
\* exponents: small, negative, around and beyond twice the rank
OddIdx == LET t == R(S, 16, 2 * N)
              b == (2 * t) + 1
          IN RS(S, 17, <<b % (2 * N), b - (2 * N), b + (2 * N), b + (2 * N * 1000), -1, (2 * N) - 1, N + 1, -b, 1 - (2 * N * 77)>>)
DivN == RS(S, 16, <<1, 2, N, N + 1, N - 1, N \div 2, (N \div 2) + 1, 1 + R(S, 17, N), 1 + R(S, 18, N)>>)

Op(name, d) == [op |-> name, d |-> d, e |-> IF name = "QuoRem" THEN Other(d) ELSE d, a |-> Fst, b |-> Snd,
                c |-> IF name = "Evaluate" THEN EvalAt(S) ELSE IF name = "Poke" THEN Rep(S, 19) ELSE Scal(S),
                k |-> CASE name \in {"Aut", "AutTo"} -> OddIdx
                        [] name = "QuoRem" -> IF DivN = 0 THEN 1 ELSE DivN
                        [] name = "Poke" -> 1 + R(S, 20, N)
                        [] OTHER -> 0,
                v |-> <<>>]
Load(d, q) == [op |-> "Load", d |-> d, e |-> d, a |-> d, b |-> d, c |-> 0, k |-> 0, v |-> RVec(q)]

\* Bound on the destination after an operation, with integer coefficients.
Grow(o) ==
  LET A == bnd[o.a]
      B == bnd[o.b]
      D == bnd[o.d]
      c == IF o.c < 0 THEN -o.c ELSE o.c
      M == IF A > 30000 \/ B > 30000 THEN Limit + 1 ELSE IF A * B > Limit \div N THEN Limit + 1 ELSE N * A * B
  IN CASE o.op \in {"Add", "AddTo", "Sub", "SubTo"} -> A + B
       [] o.op \in {"ScalarMul", "ScalarMulTo"} -> IF A > Limit \div 8 THEN Limit + 1 ELSE c * A
       [] o.op \in {"ScalarMulAddTo", "ScalarMulSubTo"} -> IF A > Limit \div 8 THEN Limit + 1 ELSE D + (c * A)
       [] o.op \in {"Mul", "MulTo"} -> M
       [] o.op \in {"MulAddTo", "MulSubTo"} -> IF M > Limit THEN M ELSE D + M
       [] o.op \in {"QuoRem", "Evaluate"} -> IF A > Limit \div (2 * N) THEN Limit + 1 ELSE N * A
       [] o.op = "Clear" -> 0
       [] o.op = "Load" -> 3
       [] o.op = "Poke" -> IF D > 3 THEN D ELSE 3
       [] OTHER -> A
FlagAfter(o) ==
  CASE o.op \in {"Mul", "MulTo", "MulAddTo", "MulSubTo", "NTT", "NTTTo"} -> TRUE
    [] o.op \in {"InvNTT", "InvNTTTo", "QuoRem", "Load"} -> FALSE
    [] o.op \in {"Clear", "Poke", "Evaluate"} -> flags[o.d]
    [] OTHER -> flags[o.a]

Wanted == IF k <= 3 THEN Load(k, S)
          ELSE LET nm == Name
                   d == IF nm \in Accumulating THEN DstSame ELSE IF nm = "Poke" THEN Fst ELSE Dst
                   o == Op(nm, d)
               IN IF P = 0 /\ (Grow(o) > Limit \/ bnd[o.d] > Limit) THEN Load(d, S) ELSE o

Init == /\ i \in 1..Count /\ k = 1
        /\ flags = [r \in 1..NR |-> FALSE] /\ bnd = [r \in 1..NR |-> 0] /\ prog = <<>>
Next ==
  /\ k <= Length
  /\ LET o == TLCEval(Wanted)
         f == TLCEval(FlagAfter(o))
         g == TLCEval(IF P = 0 THEN Grow(o) ELSE 0)
     IN /\ prog' = Append(prog, o)
        /\ flags' = IF o.op = "QuoRem" THEN [flags EXCEPT ![o.d] = FALSE, ![o.e] = FALSE] ELSE [flags EXCEPT ![o.d] = f]
        /\ bnd' = IF o.op = "QuoRem" THEN [bnd EXCEPT ![o.d] = g, ![o.e] = g] ELSE IF o.op = "Evaluate" THEN bnd ELSE [bnd EXCEPT ![o.d] = g]
  /\ k' = k + 1 /\ i' = i
  /\ IF k = Length THEN PrintT(ToJson([ring |-> Ring_, n |-> N, p |-> P, field |-> Field, prog |-> prog'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
============================================================================
