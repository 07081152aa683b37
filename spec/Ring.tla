-------------------------------- MODULE Ring --------------------------------
(* Evaluators of Z_p[X]/(X^n - 1) and Z_p[X]/(X^n + 1) as a machine with    *)
(* polynomial registers.  A register is [f, v]: v the n coefficients of the *)
(* polynomial it stands for, f whether the library keeps it transformed.    *)
(* p = 0: the coefficients are integers, small against the real field.      *)
(*                                                                          *)
(* An operation is [op, d, e, a, b, c, k, v]: destinations d (and e),       *)
(* operands a, b, scalar c, index k, vector v.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RPlus(x, y) == x + y
RTotal(q) == FoldLeft(RPlus, 0, q)
Red(p, x) == IF p = 0 THEN x ELSE x % p
RedV(p, v) == TLCEval([j \in 1..Len(v) |-> Red(p, v[j])])

RAdd(p, a, b) == TLCEval([j \in 1..Len(a) |-> Red(p, a[j] + b[j])])
RSub(p, a, b) == TLCEval([j \in 1..Len(a) |-> Red(p, a[j] - b[j])])
RScale(p, c, a) == TLCEval([j \in 1..Len(a) |-> Red(p, c * a[j])])

\* Product with X^n = s.
RMul(p, s, a, b) ==
  LET n == Len(a)
      Prod(i, j) == IF i <= j THEN Red(p, a[i] * b[j - i + 1]) ELSE s * Red(p, a[i] * b[n + j - i + 1])
      \* fewer than 2^15 summands below 2^16, or integers
      Coef(j) == Red(p, RTotal([i \in 1..n |-> Prod(i, j)]))
  IN TLCEval([j \in 1..n |-> Coef(j)])

\* a(X^d) with X^n = -1, d odd.
RAut(p, a, d) ==
  LET n == Len(a)
      dd == d % (2 * n)
      pos == [i \in 0..(n - 1) |-> (i * dd) % (2 * n)]
      Inv == TLCEval([j \in 0..(n - 1) |-> CHOOSE i \in 0..(n - 1) : pos[i] % n = j])
  IN TLCEval([j \in 1..n |-> LET i == Inv[j - 1] IN Red(p, IF pos[i] < n THEN a[i + 1] ELSE -a[i + 1])])

\* Quotient and remainder of a by X^m - 1, as vectors of the same length.
\* Coefficient i of the quotient is a[i+m] + a[i+2m] + ..., of the remainder a[i] + a[i+m] + ....
RQuo(p, a, m) ==
  LET n == Len(a) IN
  TLCEval([i \in 1..n |-> Red(p, RTotal([t \in 1..((n - i) \div m) |-> a[i + (t * m)]]))])
RRem(p, a, m) ==
  LET n == Len(a) IN
  TLCEval([i \in 1..n |-> IF i > m THEN 0 ELSE Red(p, RTotal([t \in 1..(1 + ((n - i) \div m)) |-> a[i + ((t - 1) * m)]]))])

\* Value at x.
REval(p, a, x) ==
  LET F(acc, c) == Red(p, (acc * x) + c) IN FoldLeft(F, 0, Reverse(a))

Reg(f, v) == [f |-> f, v |-> v]
Sign(ring) == IF ring = "cyclic" THEN 1 ELSE -1

Accumulating == {"ScalarMulAddTo", "ScalarMulSubTo", "MulAddTo", "MulSubTo"}

\* Precondition of an operation.
Defined(ring, r, o) ==
  CASE o.op \in {"Add", "AddTo", "Sub", "SubTo"} -> r[o.a].f = r[o.b].f
    [] o.op \in {"Mul", "MulTo"} -> r[o.a].f /\ r[o.b].f
    [] o.op \in {"MulAddTo", "MulSubTo"} -> r[o.a].f /\ r[o.b].f /\ r[o.d].f
    [] o.op \in {"ScalarMulAddTo", "ScalarMulSubTo"} -> r[o.d].f = r[o.a].f
    [] o.op \in {"NTT", "NTTTo", "QuoRem", "Evaluate"} -> ~r[o.a].f
    [] o.op \in {"InvNTT", "InvNTTTo"} -> r[o.a].f
    [] o.op \in {"Aut", "AutTo"} -> ring = "cyclotomic" /\ o.k % 2 = 1
    [] o.op = "Poke" -> ~r[o.d].f
    [] OTHER -> TRUE

\* What register d holds afterwards.
Result(ring, p, r, o) ==
  LET a == r[o.a]
      b == r[o.b]
      d == r[o.d]
      s == Sign(ring)
  IN CASE o.op \in {"Add", "AddTo"} -> Reg(a.f, RAdd(p, a.v, b.v))
       [] o.op \in {"Sub", "SubTo"} -> Reg(a.f, RSub(p, a.v, b.v))
       [] o.op \in {"Neg", "NegTo"} -> Reg(a.f, RScale(p, -1, a.v))
       [] o.op \in {"ScalarMul", "ScalarMulTo"} -> Reg(a.f, RScale(p, o.c, a.v))
       [] o.op = "ScalarMulAddTo" -> Reg(a.f, RAdd(p, d.v, RScale(p, o.c, a.v)))
       [] o.op = "ScalarMulSubTo" -> Reg(a.f, RSub(p, d.v, RScale(p, o.c, a.v)))
       [] o.op \in {"Mul", "MulTo"} -> Reg(TRUE, RMul(p, s, a.v, b.v))
       [] o.op = "MulAddTo" -> Reg(TRUE, RAdd(p, d.v, RMul(p, s, a.v, b.v)))
       [] o.op = "MulSubTo" -> Reg(TRUE, RSub(p, d.v, RMul(p, s, a.v, b.v)))
       [] o.op \in {"NTT", "NTTTo"} -> Reg(TRUE, a.v)
       [] o.op \in {"InvNTT", "InvNTTTo"} -> Reg(FALSE, a.v)
       [] o.op \in {"Aut", "AutTo"} -> Reg(a.f, RAut(p, a.v, o.k))
       [] o.op = "QuoRem" -> Reg(FALSE, RQuo(p, a.v, o.k))
       [] o.op = "Evaluate" -> d
       [] o.op = "CopyFrom" -> a
       [] o.op = "Clear" -> Reg(d.f, [j \in 1..Len(d.v) |-> 0])
       [] o.op = "Load" -> Reg(FALSE, RedV(p, o.v))
       [] o.op = "Poke" -> Reg(d.f, [d.v EXCEPT ![o.k] = Red(p, o.c)])

\* Second destination, after the first.
Result2(p, r, o) == IF o.op = "QuoRem" THEN Reg(FALSE, RRem(p, r[o.a].v, o.k)) ELSE r[o.e]
Value(p, r, o) == IF o.op = "Evaluate" THEN REval(p, r[o.a].v, o.c) ELSE 0

Step(ring, p, r, o) ==
  LET r1 == [r EXCEPT ![o.d] = Result(ring, p, r, o)]
  IN IF o.op = "QuoRem" THEN [r1 EXCEPT ![o.e] = Result2(p, r, o)] ELSE r1
=============================================================================
