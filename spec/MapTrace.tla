------------------------------ MODULE MapTrace ------------------------------
(* Validates recorded applications: the transposed map is the adjoint,      *)
(* automorphisms move coefficients as X -> X^k does, rescaling rounds to a  *)
(* nearest integer, evaluation is the value of the polynomial.              *)
EXTENDS Ring, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l

T == Trace[s]
Dot(p, a, b) == Red(p, RTotal([j \in 1..Len(a) |-> Red(p, a[j] * b[j])]))
HadP(p, a, b) == [j \in 1..Len(a) |-> Red(p, a[j] * b[j])]

Adjoint == Dot(T.p, T.mv, T.u) = Dot(T.p, T.v, T.mtu)
\* linear: M(v + u) = Mv + Mu
Linear == T.ms = RAdd(T.p, T.mv, T.mu)
Moves == T.kind = "autc" => T.mv = RAut(T.p, T.v, T.k)
\* the transform turns negacyclic products into products of values
Product == T.kind = "ntt" => T.mp = HadP(T.p, T.mv, T.mu)

\* out is v[j] * p / q (or v[j] / q when the modulus is q * p) rounded to a nearest integer, modulo p.
Near(j) ==
  LET num == IF T.qp THEN 2 * T.v[j] ELSE 2 * T.v[j] * T.p
      m0 == (num + T.q) \div (2 * T.q)
      tie == (num + T.q) % (2 * T.q) = 0
  IN T.out[j] = Red(T.p, m0) \/ (tie /\ T.out[j] = Red(T.p, m0 - 1))

\* what the specification can compute with (a coefficient too large to be recorded is wrong: every input is small)
Fits(a) == \A j \in 1..Len(a) : IF T.p > 0 THEN a[j] >= 0 /\ a[j] < T.p ELSE a[j] > -100000000 /\ a[j] < 100000000
AllFit == Fits(T.mv) /\ Fits(T.mu) /\ Fits(T.ms) /\ Fits(T.mp) /\ Fits(T.mtu)

Why ==
  (IF T.pan THEN {"panic"} ELSE IF ~AllFit THEN {"range"} ELSE
    (CASE T.kind = "switch" -> (IF \A j \in 1..Len(T.v) : Near(j) THEN {} ELSE {"rounding"}) \cup (IF T.flag THEN {"flag"} ELSE {})
       [] T.kind = "eval" -> IF T.val = REval(T.p, T.v, T.x) THEN {} ELSE {"value"}
       [] OTHER -> (IF Adjoint THEN {} ELSE {"adjoint"}) \cup (IF Linear THEN {} ELSE {"linear"}) \cup (IF Moves THEN {} ELSE {"automorphism"})
                   \cup (IF Product THEN {} ELSE {"product"})))
  \cup (IF T.intact THEN {} ELSE {"operand"})

Init == s \in 1..Len(Trace) /\ l = 1
Next == /\ l = 1
        /\ LET w == TLCEval(Why) IN
           IF w = {} THEN TRUE
           ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, n |-> T.n, field |-> T.field, k |-> T.k, q |-> T.q, why |-> w]))
        /\ l' = 2 /\ s' = s
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
