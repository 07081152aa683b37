----------------------------- MODULE GaussTrace -----------------------------
(* Validates counted samples against Gauss.                                 *)
EXTENDS Gauss, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Recs[s]
Init == s \in 1..Len(Recs) /\ l = 1
Why(r) == IF r.pan THEN {"panic"}
          ELSE Faults(r, r.cnt, r.out, r.pairs) \cup (IF r.again THEN {} ELSE {"seed"}) \cup (IF r.apart THEN {} ELSE {"copy"}) \cup (IF r.guard THEN {} ELSE {"deviation"})
Step ==
  /\ l <= 1
  /\ LET f == Why(T) IN IF f = {} THEN TRUE ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, scale |-> T.scale, why |-> f]))
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
