------------------------------ MODULE FieldGen ------------------------------
(* Programs of field operations.  Numbers that enter are near multiples of  *)
(* the modulus, powers of two, word boundaries, or drawn by the driver:     *)
(* value = sg * (m * p + c * 2^e + a), plus rnd random bits.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Length == atoi(IOEnv.LENGTH)
Fields == <<"zp110", "zp127", "zp220", "zp240", "zp440", "zp880">>
Regs == 4

At(t, i) == Mix(1 + (((Seed0 * 6151) + (t * 30011) + (i * 5003)) % 2000000000))

Imm(q, o) ==
  IF o = "near" THEN [sg |-> RS(q, 1, <<1, -1>>), m |-> 0, c |-> RS(q, 3, <<0, 1, 1>>), e |-> 64 * RR(q, 4, 1, 13), a |-> RS(q, 5, <<0, 1, -1, -2, -255>>), rnd |-> 0, seed |-> 0,
                      half |-> FALSE, mont |-> FALSE, pad |-> 0] ELSE
  [sg |-> RS(q, 1, <<1, 1, -1>>), m |-> RS(q, 2, <<0, 0, 0, 1, 1, 2, 3, 1000>>),
   c |-> RS(q, 3, <<0, 0, 1, -1>>), e |-> RS(q, 4, <<8, 31, 32, 63, 64, 65, 95, 127, 128, 191, 192, 255, 256, 319, 447, 448, 511, 832, 895, 896, 1000, 1700>>),
   a |-> RS(q, 5, <<0, 1, -1, 2, -2, 3, 255>>), rnd |-> RS(q, 6, <<0, 0, 0, 0, 32, 64, 128, 256, 900, 2000>>), seed |-> R(q, 7, 1000000),
   half |-> R(q, 8, 8) = 0, mont |-> o \in {"big", "bytes"} /\ R(q, 10, 2) = 0, pad |-> RS(q, 9, <<0, 0, 1, 7, 32, 200>>)]

Bin == <<"add", "sub", "mul", "mul", "cmp">>
\* "near": a register plus a small multiple of a power of two; compared to that register next
Una == <<"near", "near", "neg", "inv", "set", "marshal", "slice", "same", "exp">>
Ent == <<"int", "uint", "big", "big", "bytes", "bytes", "rand", "new">>
Op(q) ==
  LET k == R(q, 20, 10)
      o == IF k < 5 THEN RS(q, 21, Bin) ELSE IF k < 7 THEN RS(q, 21, Una) ELSE RS(q, 21, Ent)
      \* often onto an operand, often the same operand twice
      a == RR(q, 22, 1, Regs)
      b == IF R(q, 23, 4) = 0 THEN a ELSE RR(q, 24, 1, Regs)
      d == CASE R(q, 25, 4) = 0 -> a [] R(q, 25, 4) = 1 -> b [] OTHER -> RR(q, 26, 1, Regs)
  IN [op |-> o, d |-> d, a |-> IF \E i \in 1..Len(Ent) : Ent[i] = o THEN 0 ELSE a, b |-> IF \E i \in 1..Len(Bin) : Bin[i] = o THEN b ELSE 0, imm |-> Imm(q, o)]

\* The registers are filled first.
Case(t) == [key |-> t, field |-> Fields[1 + (t % Len(Fields))],
            prog |-> [i \in 1..Length |-> IF i <= Regs THEN LET o == RS(At(t, i), 30, <<"big", "bytes", "rand">>) IN [op |-> o, d |-> i, a |-> 0, b |-> 0, imm |-> Imm(At(t, i), o)] ELSE LET p == Op(At(t, i - 1)) IN IF i > Regs + 1 /\ p.op = "near" THEN [Op(At(t, i)) EXCEPT !.op = "cmp", !.a = p.a, !.b = p.d] ELSE Op(At(t, i))]]

VARIABLE t
Init == t \in 1..Count /\ PrintT(ToJson(Case(t)))
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
=============================================================================
