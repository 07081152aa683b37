------------------------------- MODULE Blind -------------------------------
(* What a proof may reveal.  The values a prover reveals are tied by the    *)
(* equations the verifier checks and by nothing else: along the prover's    *)
(* draws they must move in every direction those equations leave open.      *)
(* Directions are vectors over the integers modulo a small prime.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Power(_, _, _)
Power(a, e, p) == IF e = 0 THEN 1
                  ELSE LET h == Power((a * a) % p, e \div 2, p) IN IF (e % 2) = 1 THEN (h * a) % p ELSE h
Inv(a, p) == Power(a % p, p - 2, p)

Lead(r) == CHOOSE i \in 1..Len(r) : r[i] # 0 /\ \A j \in 1..(i - 1) : r[j] = 0
IsZero(r) == \A i \in 1..Len(r) : r[i] = 0
\* The basis maps a leading column to a row that has 1 there and 0 before; reduce a row by it.
Reduce(basis, row, p) ==
  LET step(r, i) == IF r[i] = 0 \/ i \notin DOMAIN basis THEN r
                    ELSE LET f == r[i] b == basis[i] IN TLCEval([j \in 1..Len(r) |-> IF j < i THEN r[j] ELSE (r[j] + ((p - f) * b[j])) % p])
  IN FoldLeft(step, row, [i \in 1..Len(row) |-> i])
Extend(basis, row, p) ==
  LET r == Reduce(basis, row, p)
  IN IF IsZero(r) THEN basis
     ELSE LET i == Lead(r)
              v == Inv(r[i], p)
          IN (i :> TLCEval([j \in 1..Len(r) |-> (r[j] * v) % p])) @@ basis
Rank(rows, p) == Cardinality(DOMAIN FoldLeft(LAMBDA b, r : Extend(b, r, p), <<>>, rows))

Cut(row, a, b) == SubSeq(row, a, b)

(* -- circuit proofs ------------------------------------------------------ *)
(* Revealed: an evaluation of every committed polynomial at the evaluation  *)
(* point, and the sum of every mask.  Equations: the arithmetic quotient is *)
(* determined by the witnesses; each mask check has two (the identity of    *)
(* the check and the degree of the remainder).                              *)
HasArith(circ) == \E i \in 1..Len(circ.cons) : circ.cons[i].t \in {"arith", "inf", "two"}
HasLin(circ) == \E i \in 1..Len(circ.cons) : circ.cons[i].t = "lin"
HasSum(circ) == \E i \in 1..Len(circ.cons) : circ.cons[i].t \in {"sum", "two"}
B(x) == IF x THEN 1 ELSE 0

\* Sums of known terms reveal nothing and are not blinded; approximate norms have no place here.
Judged(circ) == /\ circ.n >= 2
                /\ \A i \in 1..Len(circ.cons) : LET k == circ.cons[i] IN
                     /\ k.t # "approx"
                     /\ k.t = "sum" => \E j \in 1..Len(k.terms) : k.terms[j].w # <<>> /\ k.terms[j].c # 0
Witnesses(circ, evals) == evals - B(HasArith(circ)) - 4 * B(HasLin(circ)) - 4 * B(HasSum(circ))
\* Position of the quotient of the arithmetic check among the evaluations.
QuoAt(circ, evals) == Witnesses(circ, evals) + B(HasLin(circ)) + B(HasSum(circ)) + 1
Free(circ, evals) == Witnesses(circ, evals) + 3 * B(HasLin(circ)) + 3 * B(HasSum(circ))
Without(row, i) == SubSeq(row, 1, i - 1) \o SubSeq(row, i + 1, Len(row))
CircuitRank(circ, evals, mat, p) ==
  LET rows == IF HasArith(circ) THEN [i \in 1..Len(mat) |-> Without(mat[i], QuoAt(circ, evals))] ELSE mat
  IN Rank(rows, p)
\* A generic point of evaluation leaves full freedom; a special one (a root of a check) may not.
CircuitBlinded(circ, evals, mats, p) == \E k \in 1..Len(mats) : CircuitRank(circ, evals, mats[k], p) = Free(circ, evals)

(* -- openings ------------------------------------------------------------ *)
(* Revealed: the cells of the folded row, of the folded mask row, and of    *)
(* the response for every row of the matrix.  Equations: the weighted sum   *)
(* of the folded row is the claimed value, and folding the responses gives  *)
(* the folded mask row and the folded row (one equation a slot).            *)
Dot(u, v, p) == FoldLeft(LAMBDA a, i : (a + (u[i] * v[i])) % p, 0, [i \in 1..Len(u) |-> i])
OpeningBlinded(mat, cells, slots, rows, right, p) ==
  LET resp == slots * Len(rows)
      part(i) == Cut(mat[i], 1, cells)
      folded(i) == Cut(mat[i], 1, cells + slots)
      answers(i) == part(i) \o Cut(mat[i], cells + slots + 1, cells + slots + resp)
  IN /\ \A i \in 1..Len(mat) : Dot(part(i), right, p) = 0
     /\ Rank([i \in 1..Len(mat) |-> folded(i)], p) = cells - 1 + slots
     /\ Rank([i \in 1..Len(mat) |-> part(i)], p) = cells - 1
     /\ Rank([i \in 1..Len(mat) |-> answers(i)], p) = cells - 1 + resp

(* -- freshness ----------------------------------------------------------- *)
(* cls[i][k]: the class of equal values of part k of run i; two parts agree *)
(* only where both are necessarily zero.                                    *)
Repeated(cls, zero) ==
  {k \in 1..Len(zero) : ~zero[k] /\ \E i, j \in 1..Len(cls) : i < j /\ cls[i][k] = cls[j][k]}
Shared(cls, zero) ==
  {k \in 1..Len(zero) : ~zero[k] /\ \E m \in 1..Len(zero) : m # k /\ ~zero[m] /\ \E i, j \in 1..Len(cls) : cls[i][k] = cls[j][m]}

(* -- noise --------------------------------------------------------------- *)
(* In thousandths of the declared standard deviation.  Encodings are drawn  *)
(* around zero whatever they encode: half of what is measured encodes the   *)
(* largest digits, and the mean of n coefficients is within seven standard  *)
(* deviations of a mean.                                                    *)
Root(n) == CHOOSE r \in 0..46000 : r * r <= n /\ (r = 46000 \/ n < (r + 1) * (r + 1))
MeanGood(mean, n) == LET a == IF mean < 0 THEN -mean ELSE mean IN a <= 3 + (7000 \div Root(n))
NoiseGood(g) == g.ratio > 500 /\ g.ratio < 2000 /\ MeanGood(g.mean, g.n) /\ g.rep = 0
=============================================================================
