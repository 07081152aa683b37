---------------------------- MODULE TamperTrace ----------------------------
(* Validates recorded alterations: after each of them the verifier's answer *)
(* must be one that Tamper allows.                                          *)
EXTENDS Tamper, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, k, l, content, broken
vars == <<s, k, l, content, broken>>

T == Trace[s]
C == T.cases[k]
Start(t) == [c \in 1..Len(t.comps) |-> Token(t.cls[1][c])]

Init == /\ s \in 1..Len(Trace) /\ k \in 1..Len(Trace[s].cases) /\ l = 1
        /\ content = Start(Trace[s]) /\ broken = FALSE

Step ==
  /\ l <= Len(C.ops)
  /\ LET o == C.ops[l]
         r == C.res[l]
     IN /\ content' = TLCEval(Alter(T.comps, T.cls, content, o))
        /\ broken' = (broken \/ Misshapes(o))
        /\ LET ok == TLCEval(~T.base[1] \/ (~r.pan /\ r.acc \in Verdicts(T.comps, T.cls, T.base, content', broken'))) IN
           IF ok THEN TRUE
           ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, field |-> T.field, k |-> k, at |-> l, op |-> o, ops |-> SubSeq(C.ops, 1, l), res |-> r,
                       on |-> IF o.o \in {"bump", "swap", "graft", "poly"} THEN T.comps[o.a].g ELSE o.g,
                       statement |-> \E j \in 1..l : LET q == C.ops[j] IN
                            q.o \in {"bump", "swap", "graft"} /\ T.comps[q.a].g \in {"crs", "point", "com", "eval"}]))
  /\ l' = l + 1 /\ s' = s /\ k' = k

Spec == Init /\ [][Step]_vars
=============================================================================
