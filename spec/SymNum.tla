------------------------------ MODULE SymNum ------------------------------
(* Integers and field elements too large for TLC, as records [s, e, a]:     *)
(*   e >= 0   s * 2^e + a,  s in {-1, 0, 1}, 2^e above every |a| in use     *)
(*   e = -1   s * h + a,  h = floor(p / 2),  s in {-1, 0, 1}                *)
(*   e = -2   s * I + a,  I the square root of -1 in the field              *)
(* Every 2^e and 2^(2e) in use is below p / 4; I is far from every small a. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Num(a) == [s |-> 0, e |-> 0, a |-> a]
Pow(s, e, a) == [s |-> s, e |-> e, a |-> a]
Half(s, a) == [s |-> s, e |-> -1, a |-> a]
Imag(s, a) == [s |-> s, e |-> -2, a |-> a]

SAbs(x) == IF x < 0 THEN -x ELSE x

\* Magnitude of the centred representative, as <<class, exponent, offset>>, ordered lexicographically:
\* class 0 small, 1 near 2^e, 2 near I, 3 near h.  p = 2h + 1, so h + a with a > 0 represents -(h + 1 - a).
Mag(x) ==
  IF x.s = 0 THEN <<0, 0, SAbs(x.a)>>
  ELSE LET d == x.s * x.a IN
       CASE x.e >= 0 -> <<1, x.e, d>>
         [] x.e = -2 -> <<2, 0, d>>
         [] x.e = -1 -> <<3, 0, IF d > 0 THEN 1 - d ELSE d>>
MLeq(m, k) == \/ m[1] < k[1]
              \/ m[1] = k[1] /\ (m[2] < k[2] \/ (m[2] = k[2] /\ m[3] <= k[3]))

InfHolds(v, b) == \A j \in 1..Len(v) : MLeq(Mag(v[j]), Mag(b))

\* Sum of squares: at most two entries near a common 2^e (with offset 0), or any number of I's.
SPlus(a, b) == a + b
SSum(q) == FoldLeft(SPlus, 0, q)
TwoHolds(v, b) ==
  LET pows == {j \in 1..Len(v) : v[j].s # 0 /\ v[j].e >= 0}
      real == SSum([j \in 1..Len(v) |-> IF v[j].s # 0 /\ v[j].e = -2 THEN v[j].a * v[j].a - v[j].s * v[j].s
                                        ELSE IF v[j].s # 0 THEN 0 ELSE v[j].a * v[j].a])
      imag == SSum([j \in 1..Len(v) |-> IF v[j].s # 0 /\ v[j].e = -2 THEN 2 * v[j].a * v[j].s ELSE 0])
      cnt == Cardinality(pows)
      k == IF cnt = 0 THEN 0 ELSE v[CHOOSE j \in pows : TRUE].e
      \* the sum is cnt * 2^(2k) + real + imag * I
      mag == IF cnt = 0 THEN <<0, 0, real>> ELSE <<1, 2 * k + (IF cnt = 2 THEN 1 ELSE 0), real>>
  IN imag = 0 /\ (cnt > 0 \/ real >= 0) /\ MLeq(mag, Mag(b))

\* The entries add up to b: entries near 2^e all have the same e, and b is one of them or small.
SumHolds(v, b) ==
  LET sym == {j \in 1..Len(v) : v[j].s # 0}
      small == SSum([j \in 1..Len(v) |-> v[j].a])
      k == SSum([j \in 1..Len(v) |-> v[j].s])
      e == IF sym = {} THEN 0 ELSE v[CHOOSE j \in sym : TRUE].e
  IN /\ small = b.a
     /\ CASE k = 0 -> b.s = 0
          [] k \in {1, -1} -> b.s = k /\ b.e = e
          [] k \in {2, -2} -> b.s = k \div 2 /\ b.e = e + 1
          [] OTHER -> FALSE
===========================================================================
