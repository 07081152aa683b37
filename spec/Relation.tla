----------------------------- MODULE Relation -----------------------------
(* What a circuit means.                                                    *)
(*                                                                          *)
(* A circuit over rank n is [n, np, nw, layout, mats, cons]: np public and  *)
(* nw secret vectors of n slots, and a sequence of constraints.  A vector   *)
(* is [d, v]: v the n integer coefficients (small enough that equality over *)
(* the field is equality over the integers), d its domain: "c" = slots hold *)
(* the coefficients, "n" = slots hold the negacyclic NTT of the polynomial  *)
(* with coefficients v.  An assignment is [pub, wit].                       *)
(*                                                                          *)
(* Every constraint has the same fields:                                    *)
(*   t     "arith" | "sum" | "lin" | "inf" | "two" | "approx"               *)
(*   dom   domain of the vectors of an arith/sum constraint                 *)
(*   terms sequence of [c, p, w]: c * pub[p] * Prod wit[w[i]]  (p=0: none)  *)
(*   b     declared sum, or norm bound                                      *)
(*   x, y  lin: wit[x] = M wit[y];  norms: wit[x]                           *)
(*   m     map: 0 none, k > 0: matrix circ.mats[k], -1 NTT,                 *)
(*         -2 automorphism on coefficients, -3 automorphism on NTT values   *)
(*   k     exponent of the automorphism                                     *)
(*   f     (arith, sum) names a constant of the field, not zero, by which   *)
(*         every coefficient and the declared sum are multiplied: it does   *)
(*         not change what the constraint means                             *)
(* A norm constraint with dom = "s" bounds a vector of symbolic numbers     *)
(* (module SymNum) by a symbolic number; a sum with dom = "s" adds up the   *)
(* secret vectors of its terms, all with coefficient 1.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, SymNum

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b

Plus(a, b) == a + b
MaxAbsOf(a, b) == IF Abs(b) > a THEN Abs(b) ELSE a
MaxAbs(v) == FoldLeft(MaxAbsOf, 0, v)
Total(v) == FoldLeft(Plus, 0, v)
SqNorm(v) == Total([j \in 1..Len(v) |-> v[j] * v[j]])

ZeroVec(n) == [j \in 1..n |-> 0]
ConstVec(n, c) == [j \in 1..n |-> c]
UnitPoly(n, c) == [j \in 1..n |-> IF j = 1 THEN c ELSE 0]
AddVec(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
ScaleVec(c, a) == [j \in 1..Len(a) |-> c * a[j]]
HadVec(a, b) == [j \in 1..Len(a) |-> a[j] * b[j]]

\* a * b in Z[X]/(X^n + 1): coefficient j (1-based) collects a[i] b[j-i+1].
NegaMul(a, b) ==
  LET n == Len(a)
      Coef(j) == Total([i \in 1..n |-> IF i <= j THEN a[i] * b[j - i + 1]
                                               ELSE -(a[i] * b[n + j - i + 1])])
  IN [j \in 1..n |-> Coef(j)]

\* a(X^d) in Z[X]/(X^n + 1), d odd.
Aut(a, d) ==
  LET n == Len(a)
      dd == d % (2 * n)
      \* the i0 (0-based) with i0 * dd = j0 mod n
      Src(j0) == CHOOSE i \in 0..(n - 1) : (i * dd) % n = j0
      Val(j0) == LET i == Src(j0) IN IF (i * dd) % (2 * n) = j0 THEN a[i + 1] ELSE -a[i + 1]
  IN [j \in 1..n |-> Val(j - 1)]

MatVec(m, v) == [i \in 1..Len(m) |-> Total([j \in 1..Len(v) |-> m[i][j] * v[j]])]

\* One term, as a vector in its domain's own representation: slot values in "c", a polynomial in "n".
RECURSIVE MulAll(_, _, _)
MulAll(dom, acc, vs) ==
  IF vs = <<>> THEN acc
  ELSE MulAll(dom, TLCEval(IF dom = "c" THEN HadVec(acc, Head(vs)) ELSE NegaMul(acc, Head(vs))), Tail(vs))

TermVec(n, dom, asg, t) ==
  LET one == IF dom = "c" THEN ConstVec(n, t.c) ELSE UnitPoly(n, t.c)
      fs  == (IF t.p = 0 THEN <<>> ELSE <<asg.pub[t.p].v>>) \o [i \in 1..Len(t.w) |-> asg.wit[t.w[i]].v]
  IN MulAll(dom, one, fs)

RECURSIVE TermsVec(_, _, _, _)
TermsVec(n, dom, asg, ts) ==
  IF ts = <<>> THEN ZeroVec(n) ELSE TLCEval(AddVec(TermVec(n, dom, asg, Head(ts)), TermsVec(n, dom, asg, Tail(ts))))

\* Sum over the slots; the slots of an NTT vector add up to n times the constant coefficient.
SlotSum(n, dom, v) == IF dom = "c" THEN Total(v) ELSE n * v[1]

Apply(circ, c, v) ==
  CASE c.m > 0  -> [d |-> "c", v |-> MatVec(circ.mats[c.m], v.v)]
    [] c.m = -1 -> [d |-> "n", v |-> v.v]
    [] c.m = -2 -> [d |-> "c", v |-> Aut(v.v, c.k)]
    [] c.m = -3 -> [d |-> "n", v |-> Aut(v.v, c.k)]

\* Value of a constraint under an assignment: "sat", "unsat" or "gap" (the documentation promises nothing).
Judge(circ, asg, c) ==
  LET n == circ.n
      yes(b) == IF b THEN "sat" ELSE "unsat"
  IN CASE c.t = "arith"  -> yes(TermsVec(n, c.dom, asg, c.terms) = ZeroVec(n))
       [] c.t = "sum" /\ c.dom = "s" -> yes(SumHolds(FlattenSeq([i \in 1..Len(c.terms) |-> asg.wit[c.terms[i].w[1]].v]), c.b))
       [] c.t = "sum"    -> yes(SlotSum(n, c.dom, TermsVec(n, c.dom, asg, c.terms)) = c.b)
       [] c.t = "lin"    -> yes(asg.wit[c.x] = Apply(circ, c, asg.wit[c.y]))
       [] c.t = "inf" /\ c.dom = "s" -> yes(InfHolds(asg.wit[c.x].v, c.b))
       [] c.t = "two" /\ c.dom = "s" -> yes(TwoHolds(asg.wit[c.x].v, c.b))
       [] c.t = "inf"    -> yes(MaxAbs(asg.wit[c.x].v) <= c.b)
       [] c.t = "two"    -> yes(SqNorm(asg.wit[c.x].v) <= c.b)
       [] c.t = "approx" -> IF MaxAbs(asg.wit[c.x].v) <= c.b THEN "sat"
                            ELSE IF c.b = 0 \/ MaxAbs(asg.wit[c.x].v) > 4 * n * c.b THEN "unsat" ELSE "gap"

Verdict(circ, asg) ==
  LET J == {Judge(circ, asg, circ.cons[i]) : i \in 1..Len(circ.cons)}
  IN IF "unsat" \in J THEN "unsat" ELSE IF "gap" \in J THEN "gap" ELSE "sat"

Sat(circ, asg) == Verdict(circ, asg) = "sat"

\* The assignment has the declared number of vectors, each of the declared length.
WellFormedPub(circ, asg) ==
  /\ Len(asg.pub) = circ.np
  /\ \A i \in 1..Len(asg.pub) : Len(asg.pub[i].v) = circ.n
WellFormed(circ, asg) ==
  /\ WellFormedPub(circ, asg)
  /\ Len(asg.wit) = circ.nw
  /\ \A i \in 1..Len(asg.wit) : Len(asg.wit[i].v) = circ.n
===========================================================================
