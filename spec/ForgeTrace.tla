----------------------------- MODULE ForgeTrace -----------------------------
(* Validates recorded verdicts on openings put together from two sources.   *)
EXTENDS Forge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Trace[s]

Init == s \in 1..Len(Trace) /\ l = 1
Step ==
  /\ l <= Len(T.cases)
  /\ LET k == T.cases[l]
         ok == T.ok /\ k.ok
         good == ok => (~k.pan /\ k.acc \in Verdicts(k, k.same, k.res, k.dcmp))
     IN IF good THEN TRUE
        ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, field |-> T.field, cap |-> T.cap, lens |-> T.lens, case |-> k, chain |-> Chain(k),
                    broken |-> {Links[i] : i \in Broken(k, k.same)}]))
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
