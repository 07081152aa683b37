----------------------------- MODULE ConcTrace -----------------------------
(* Validates what was recorded about the runs themselves: a run without     *)
(* controlled schedule is free of unordered accesses to shared memory.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<s, l>>
T == Trace[s]
Init == s \in 1..Len(Trace) /\ l = 1
Step ==
  /\ l = 1
  /\ IF T.races = 0 THEN TRUE ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, races |-> T.races, what |-> T.what]))
  /\ l' = 2 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
