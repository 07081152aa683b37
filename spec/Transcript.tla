----------------------------- MODULE Transcript -----------------------------
(* The order of messages and challenges in a proof.  Messages are numbered  *)
(* by the round in which the prover has sent them, challenges by the last   *)
(* round they must depend on.                                               *)
(*                                                                          *)
(* A circuit proof:                                                         *)
(*   round 0  public vectors, commitments to the assignment                 *)
(*            -> projConst                                                  *)
(*   round 1  commitments to the digits of projections, masks with sums     *)
(*            -> arithBatchConst, linCheckBatchConst, linCheckConst,        *)
(*               sumCheckBatchConst                                         *)
(*   round 2  commitments to quotients and remainders -> evalPoint          *)
(* An opening:                                                              *)
(*   round 0  CRS, commitments, point, claimed values -> batch (one each)   *)
(*   round 1  partial openings and their mask -> fold (one per column)      *)
EXTENDS Integers, Sequences, FiniteSets

ChallengeRound(name) ==
  CASE name \in {"projConst", "batch"} -> 0
    [] name = "evalPoint" -> 2
    [] OTHER -> 1

HasKind(circ, ks) == \E i \in 1..Len(circ.cons) : circ.cons[i].t \in ks
\* Commitments sent last: one for the arithmetic constraints, three for each of the two sum checks.
LastCommitments(circ, comps) ==
  (IF HasKind(circ, {"arith", "inf", "two", "approx"}) THEN 1 ELSE 0)
  + 3 * Cardinality({c \in 1..Len(comps) : comps[c].g \in {"linsum", "sumsum"}})
NCommitments(comps) == 1 + (CHOOSE m \in {comps[c].i : c \in {c \in 1..Len(comps) : comps[c].g = "com"}} :
                              \A c \in 1..Len(comps) : comps[c].g = "com" => comps[c].i <= m)

\* The latest round in which a component of a circuit proof can have been sent (9: not part of the transcript).
ComponentRound(circ, comps, c) ==
  CASE comps[c].g = "com" -> IF comps[c].i < circ.nw THEN 0
                             ELSE IF comps[c].i < NCommitments(comps) - LastCommitments(circ, comps) THEN 1 ELSE 2
    [] comps[c].g \in {"linsum", "sumsum"} -> 1
    [] OTHER -> 9

MessageRound(circ, comps, k, a) ==
  CASE k = "comp" -> ComponentRound(circ, comps, a.a)
    [] k \in {"pub", "crs", "com", "point", "value"} -> 0
    [] k \in {"partial", "mask"} -> 1
    [] OTHER -> 9

\* The masks of one check need not precede the challenges of another.
Concerns(comps, k, a, name) ==
  k = "comp" =>
    CASE comps[a.a].g = "linsum" -> name \in {"linCheckBatchConst", "linCheckConst", "evalPoint"}
      [] comps[a.a].g = "sumsum" -> name \in {"sumCheckBatchConst", "evalPoint"}
      [] OTHER -> TRUE

DependsOn(circ, comps, k, a, name) ==
  MessageRound(circ, comps, k, a) <= ChallengeRound(name) /\ Concerns(comps, k, a, name)
=============================================================================
