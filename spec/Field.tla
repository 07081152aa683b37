------------------------------- MODULE Field --------------------------------
(* Registers of field elements under the operations of the field interface. *)
(* A register is a number below the modulus; every operation writes one     *)
(* register, which may be one of its operands, and leaves the others alone. *)
(* Relations modulo p are decided in the integers: the recording carries    *)
(* the quotients, which need not be trusted.                                *)
EXTENDS Limbs, FiniteSets, TLC

One == <<1>>
\* x = y + q * p
Off(x, y, q, p) == x = Sum2(y, Times(q, p))

\* a^e by repeated squaring, most significant bit first: every step with its quotient.
Chain(a, steps, p) ==
  \A i \in 1..Len(steps) :
    LET s == steps[i]
        prev == IF i = 1 THEN One ELSE steps[i - 1].r
    IN Off(Times(prev, IF s.sq THEN prev ELSE a), s.r, s.q, p) /\ Less(s.r, p)
Exponent(steps) == FoldLeft(LAMBDA e, s : IF s.sq THEN Sum2(e, e) ELSE Sum2(e, One), <<>>, steps)

\* The result r of operation v on registers a, b (numbers), with immediate [neg, m]: what it must be.
Relation(v, a, b, r, p) ==
  CASE v.op = "add" -> Off(Sum2(a, b), r, v.q, p)
    [] v.op = "sub" -> Sum2(a, Times(v.q, p)) = Sum2(r, b)
    [] v.op = "neg" -> Sum2(a, r) = Times(v.q, p)
    [] v.op = "mul" -> Off(Times(a, b), r, v.q, p)
    [] v.op = "inv" -> IF a = <<>> THEN r = <<>> ELSE Off(Times(a, r), One, v.q, p)
    [] v.op \in {"set", "marshal"} -> r = a
    [] v.op = "new" -> r = <<>>
    [] v.op \in {"int", "uint", "big", "near", "bytes"} -> IF v.neg THEN Sum2(v.m, r) = Times(v.q, p) ELSE Off(v.m, r, v.q, p)
    [] v.op = "rand" -> TRUE
    [] v.op = "exp" -> Exponent(v.steps) = v.m /\ Chain(a, v.steps, p) /\ r = (IF v.steps = <<>> THEN One ELSE v.steps[Len(v.steps)].r)

\* What is read off register a by the operation.
Read(v, a, b, words) ==
  CASE v.op = "marshal" -> v.out = a /\ v.len = 8 * words
    [] v.op = "slice" -> v.out = a /\ v.len = words        \* as many words, and none behind them
    [] v.op = "cmp" -> v.len = Cmp(a, b)
    [] v.op = "same" -> v.out = a
    [] OTHER -> TRUE

Reads == {"slice", "cmp", "same"}
Faults(v, before, after, p, words) ==
  LET a == IF v.a = 0 THEN <<>> ELSE before[v.a]
      b == IF v.b = 0 THEN <<>> ELSE before[v.b]
  IN IF v.pan THEN {"panic"}
     ELSE {f[1] : f \in {x \in {
            <<"range", \A i \in 1..Len(after) : IsNat(after[i]) /\ Less(after[i], p)>>,
            <<"value", v.op \in Reads \/ Relation(v, a, b, after[v.d], p)>>,
            <<"reading", Read(v, a, b, words)>>,
            <<"others", \A i \in 1..Len(after) : (i # v.d \/ v.op \in Reads) => after[i] = before[i]>>,
            <<"fresh", v.op = "rand" => \A i \in 1..Len(before) : before[i] # after[v.d]>>,
            \* neither the upper nor the lower limbs of a random element vanish (36 bits and more)
            <<"random", v.op = "rand" => LET r == after[v.d] IN Len(r) >= Len(p) - 4 /\ \E i \in 1..3 : r[i] # 0>>,
            <<"receiver", v.self>>} : ~x[2]}}
=============================================================================
