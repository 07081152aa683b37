----------------------------- MODULE FieldTrace -----------------------------
(* Validates recorded programs of field operations against Field.           *)
EXTENDS Field, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Recs[s]
Zero == [i \in 1..Len(T.ev[1].regs) |-> <<>>]
Init == s \in 1..Len(Recs) /\ l = 1
Step ==
  /\ l <= Len(T.ev)
  /\ LET v == T.ev[l]
         f == Faults(v, IF l = 1 THEN Zero ELSE T.ev[l - 1].regs, v.regs, T.p, T.words)
     IN IF f = {} THEN TRUE ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, field |-> T.field, at |-> l, op |-> v.op, why |-> f]))
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
