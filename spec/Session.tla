------------------------------ MODULE Session ------------------------------
(* The life of compiled circuits: Compile, Prove and Verify calls on shared *)
(* objects.  The state is what a user may rely on: which pairs exist, and   *)
(* for each proof which pair made it from which assignment.                 *)
EXTENDS Relation

VARIABLES pairs,   \* sequence of [c |-> circuit index, crs]
          proofs   \* sequence of [pair, asg, tampered]
svars == <<pairs, proofs>>

\* The circuits and assignments of the scenario being played.
CONSTANTS Circ(_), Asg(_)

SInit == pairs = <<>> /\ proofs = <<>>

Compile(c, crs) ==
  /\ pairs' = Append(pairs, [c |-> c, crs |-> crs])
  /\ UNCHANGED proofs

\* Results a Prove call may return: "ok", "err" (refused) or "panic".
ProveResults(pr, a) ==
  LET ci == Circ(pairs[pr].c) IN
  IF ~WellFormed(ci, Asg(a)) \/ ci.shape # Asg(a).shape THEN {"err"}
  ELSE IF Sat(ci, Asg(a)) THEN {"ok"} ELSE {"ok", "err", "panic"}

Prove(pr, a, res) ==
  /\ res \in ProveResults(pr, a)
  /\ proofs' = Append(proofs, [pair |-> pr, asg |-> a, made |-> res = "ok", tampered |-> FALSE])
  /\ UNCHANGED pairs

\* A copy of proof pf with one component changed.
Tamper(pf) ==
  /\ proofs' = Append(proofs, [proofs[pf] EXCEPT !.tampered = TRUE])
  /\ UNCHANGED pairs

\* Verdicts a Verify call may return.
VerifyResults(pr, pf, a) ==
  LET P  == proofs[pf]
      ci == Circ(pairs[pr].c)
      cj == Circ(pairs[P.pair].c)
      same == pairs[pr] = pairs[P.pair]
      pub == Asg(a).pub
  IN IF ~P.made THEN {FALSE}
     ELSE IF ci.shape # Asg(a).shape \/ ~WellFormedPub(ci, Asg(a)) THEN {FALSE}
     ELSE IF P.tampered THEN {FALSE}
     ELSE IF Len(Asg(a).wit) # ci.nw \/ ~WellFormed(cj, Asg(P.asg)) THEN BOOLEAN
     ELSE IF pairs[pr].crs # pairs[P.pair].crs THEN {FALSE}
     ELSE IF pub # Asg(P.asg).pub THEN {FALSE}
     ELSE IF same \/ ci = cj THEN
       (CASE Verdict(ci, Asg(P.asg)) = "sat" -> {TRUE}
          [] Verdict(ci, Asg(P.asg)) = "unsat" -> {FALSE}
          [] OTHER -> BOOLEAN)
     ELSE IF ~WellFormed(ci, Asg(P.asg)) \/ Verdict(ci, Asg(P.asg)) = "unsat" THEN {FALSE}
     ELSE BOOLEAN

Verify(pr, pf, a, res) ==
  /\ res \in VerifyResults(pr, pf, a)
  /\ UNCHANGED svars
===========================================================================
