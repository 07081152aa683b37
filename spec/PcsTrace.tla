------------------------------ MODULE PcsTrace ------------------------------
(* Validates recorded histories of commitments and openings.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES provers, coms, opens, s, l
vars == <<provers, coms, opens, s, l>>

T == Trace[s]
H == INSTANCE Pcs WITH World <- Trace

Ev == T.ev[l]
Why ==
  (IF Ev.pan THEN {"panic"} ELSE {}) \cup (IF Ev.intact THEN {} ELSE {"mutated"})
  \cup (IF Ev.op = "open" /\ ~Ev.pan /\ Ev.vals # H!Values(Ev.coms, Ev.x) THEN {"value"} ELSE {})
  \cup (IF Ev.op = "verify" /\ ~Ev.pan /\ Ev.acc \notin H!Verdict(Ev.crs, Ev.o, Ev.coms, Ev.x, Ev.w)
        THEN {IF Ev.acc THEN "accepted" ELSE "rejected"} ELSE {})

Init == H!PInit /\ l = 1
Next ==
  /\ l <= Len(T.ev)
  /\ LET w == TLCEval(Why) IN
     IF w = {} THEN TRUE
     ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, field |-> T.field, cap |-> T.cap, batch |-> T.batch, at |-> l,
                                        op |-> Ev.op, why |-> w, lens |-> [v \in 1..Len(T.polys) |-> Len(T.polys[v])]]))
  /\ CASE Ev.op = "prover" -> H!NewProver(Ev.crs)
       [] Ev.op = "copy"   -> H!CopyProver(Ev.q)
       [] Ev.op = "commit" -> H!Commit(Ev.q, Ev.v)
       [] Ev.op = "open"   -> H!Open(Ev.q, Ev.coms, Ev.x)
       [] Ev.op = "verify" -> UNCHANGED <<provers, coms, opens>>
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
