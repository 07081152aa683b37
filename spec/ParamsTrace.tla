----------------------------- MODULE ParamsTrace -----------------------------
(* Validates recorded derivations.                                           *)
EXTENDS Params, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
T == Trace[s]
Init == s \in 1..Len(Trace) /\ l = 1
Next == /\ l = 1 /\ l' = 2 /\ s' = s
        /\ LET f == TLCEval(Faults(T)) IN
           IF f = {} THEN TRUE
           ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, field |-> T.field, target |-> T.target, batch |-> T.batch, use |-> T.use, why |-> f]))
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
