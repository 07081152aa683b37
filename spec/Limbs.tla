------------------------------- MODULE Limbs --------------------------------
(* Natural numbers as little-endian sequences of limbs of 12 bits, without  *)
(* leading zeros.                                                           *)
EXTENDS Integers, Sequences, SequencesExt

Limb == 4096
Strip(a) == SubSeq(a, 1, SelectLastInSeq(a, LAMBDA x : x # 0))
\* limbs not yet reduced (below 2^31), to limbs; at most 128 products of 24 bits fit
Carry(a) == FoldLeft(LAMBDA acc, x : LET t == x + acc.c IN [c |-> t \div Limb, out |-> Append(acc.out, t % Limb)],
                     [c |-> 0, out |-> <<>>], a \o <<0, 0, 0>>).out
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Plus(x, y) == x + y
\* column k of the schoolbook product
Column(a, b, k) == FoldLeft(Plus, 0, [i \in 1..Max2(0, Min2(k, Len(a)) - Max2(1, k + 1 - Len(b)) + 1)
                                        |-> LET j == Max2(1, k + 1 - Len(b)) + i - 1 IN a[j] * b[k + 1 - j]])
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE Strip(Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, k)]))
Inc(a) == Strip(Carry(IF a = <<>> THEN <<1>> ELSE [a EXCEPT ![1] = @ + 1]))
RECURSIVE Power(_, _)
Power(a, e) == IF e = 1 THEN a ELSE LET h == Power(a, e \div 2) IN IF (e % 2) = 0 THEN Times(h, h) ELSE Times(Times(h, h), a)
ModSmall(a, m) == FoldRight(LAMBDA x, r : ((r * Limb) + x) % m, a, 0)   \* m below 2^19


IsNat(a) == (\A i \in 1..Len(a) : a[i] \in 0..(Limb - 1)) /\ (a # <<>> => a[Len(a)] # 0)
Sum2(a, b) == Strip(Carry([i \in 1..Max2(Len(a), Len(b)) |-> (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0)]))
RECURSIVE Compare(_, _, _)
Compare(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE Compare(a, b, i - 1)
\* -1, 0, 1 as a is below, equal to, above b
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE Compare(a, b, Len(a))
Less(a, b) == Cmp(a, b) = -1
FromInt(x) == Strip(Carry(<<x>>))

\* a - b for a not below b, and the distance of the two
Minus(a, b) == Strip(Carry([i \in 1..Len(a) |-> a[i] - (IF i <= Len(b) THEN b[i] ELSE 0)]))
Apart(a, b) == IF Less(a, b) THEN Minus(b, a) ELSE Minus(a, b)
\* quotient by m below 2^19
Div(a, m) == Strip(FoldRight(LAMBDA x, acc : LET t == (acc.r * Limb) + x IN [r |-> t % m, out |-> <<t \div m>> \o acc.out], a, [r |-> 0, out |-> <<>>]).out)
\* the n lowest limbs dropped
Drop(a, n) == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))
Bin(n) == [i \in 1..((n \div 12) + 1) |-> IF i = (n \div 12) + 1 THEN 2 ^ (n % 12) ELSE 0]   \* 2^n

ASSUME \A x, y \in {0, 1, 4095, 4096, 70000} : /\ Sum2(FromInt(x), FromInt(y)) = FromInt(x + y)
                                               /\ Cmp(FromInt(x), FromInt(y)) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
ASSUME \A x, y \in {0, 1, 4095, 4096, 12289} : Times(FromInt(x), FromInt(y)) = FromInt(x * y)
ASSUME \A x, y \in {0, 1, 4095, 4096, 70000, 16777216} : /\ Minus(Sum2(FromInt(x), FromInt(y)), FromInt(x)) = FromInt(y)
                                                         /\ Div(FromInt(x), y + 1) = FromInt(x \div (y + 1))
ASSUME \A x \in 0..25 : Bin(x) = FromInt(2 ^ x)
=============================================================================
