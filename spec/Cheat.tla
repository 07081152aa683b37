------------------------------- MODULE Cheat --------------------------------
(* Provers that do not follow the library.                                  *)
(*                                                                          *)
(* A check of the protocol (arithmetic, linear, sum) is an identity between *)
(* committed polynomials at a point drawn after the commitments:            *)
(*   left = quo * (X^n - 1) + X * lo + maskSum + declared,                  *)
(* together with hi = X^(R-n+1) * lo, which leaves lo no room for degree    *)
(* n - 1.  If the statement is false, the remainder of left is off by       *)
(* something known only after the challenges, and a deceit is a place to    *)
(* put this something.  Each place violates one of the four things that     *)
(* the verifier relies on.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Reasons == {"identity", "shift", "room", "order"}

\* What is changed after a challenge is either still bound to it, or kept out of it.
Late == {[place |-> p, part |-> "", keep |-> b] : p \in {"latesum", "latemask"}, b \in BOOLEAN}
        \cup {[place |-> "point", part |-> h, keep |-> b] : h \in {"quo", "lo", "lohi"}, b \in BOOLEAN}
Deceits ==
  {[place |-> p, part |-> "", keep |-> FALSE] : p \in {"none", "quo"}}
  \cup {[place |-> "extra", part |-> h, keep |-> FALSE] : h \in {"full", "trunc", "short", "same", "none"}}
  \cup Late

\* What is wrong with a deceit, in a protocol in which a committed polynomial has fewer than R coefficients
\* and every message precedes the challenges after it.
Wrong(k) ==
  CASE k.place = "none"     -> {"identity"}
    [] k.place = "quo"      -> {"identity"}            \* adding a constant to quo also moves X^n
    [] k.place = "latesum"  -> {"order"}
    [] k.place = "latemask" -> {"order"}
    [] k.place = "extra"    -> IF k.part = "full" THEN {"room"} ELSE {"shift"}
    [] k.place = "point"    -> IF k.part = "lo" THEN {"order", "shift"} ELSE {"order"}

ASSUME \A k \in Deceits : Wrong(k) # {} /\ Wrong(k) \subseteq Reasons
\* None of the four can be left out.
ASSUME \A r \in Reasons : \E k \in Deceits : Wrong(k) = {r}

(* ---- the identity over a small field, all polynomials ------------------ *)
\* Over F_P with n = 2 (the subgroup {1, -1}): left has four coefficients.
P == 3
F == 0..(P - 1)
Holds(e, q, lo, s) ==                   \* e = q (X^2 - 1) + X lo + s, with lo of up to two coefficients
  /\ e[1] = (s - q[1] + P) % P
  /\ e[2] = (lo[1] - q[2] + P) % P
  /\ e[3] = (q[1] + lo[2]) % P
  /\ e[4] = q[2]
TrueSum(e, s) == (e[1] + e[3]) % P = s  \* half the sum over the subgroup
Polys4 == [1..4 -> F]
Sound(room) == \A e \in Polys4, s \in F : (\E q \in [1..2 -> F], lo \in [1..2 -> F] : (room \/ lo[2] = 0) /\ Holds(e, q, lo, s)) => TrueSum(e, s)
ASSUME Sound(FALSE)
\* With room for one more coefficient everything can be proven, and only by the deceit "extra".
ASSUME \A e \in Polys4, s \in F : \E q \in [1..2 -> F], lo \in [1..2 -> F] : Holds(e, q, lo, s)
ASSUME \A e \in Polys4, s \in F, q \in [1..2 -> F], lo \in [1..2 -> F] : (Holds(e, q, lo, s) /\ ~TrueSum(e, s)) => lo[2] # 0

(* ---- digits ------------------------------------------------------------ *)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
RECURSIVE BaseUpTo(_, _)
BaseUpTo(x, k) ==                       \* the first k bases of the bound x
  IF k = 0 THEN <<>>
  ELSE LET b == BaseUpTo(x, k - 1)
           rest == x - FoldLeft(LAMBDA s, y : s + y, 0, b)
       IN IF k = BitLen(x) THEN Append(b, 1) ELSE Append(b, (rest \div 2) + (rest % 2))
Base(x) == BaseUpTo(x, BitLen(x))
Reach(b, D) == FoldLeft(LAMBDA S, y : {s + (d * y) : s \in S, d \in D}, {0}, b)
\* Digits -1, 0, 1 reach exactly -x..x, and digits 0, 1 exactly 0..x.
ASSUME \A x \in 1..70 : Reach(Base(x), {-1, 0, 1}) = (-x)..x /\ Reach(Base(x), {0, 1}) = 0..x
\* One digit further out on its own exceeds the bound when the others do their part.
ASSUME \A x \in 2..70 : \A j \in 1..Len(Base(x)) : x + Base(x)[j] > x
=============================================================================
