----------------------------- MODULE RingTrace -----------------------------
(* Validates recorded register programs.  Each recorded operation must turn *)
(* the recorded registers before it into those after it, whether or not its *)
(* destination is one of its operands.                                      *)
EXTENDS Ring, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, regs, lost
vars == <<s, l, regs, lost>>

T == Trace[s]
O == T.prog[l]
Ev == T.steps[l]
Init == s \in 1..Len(Trace) /\ l = 1 /\ regs = Trace[s].init /\ lost = FALSE

Want == Step(T.ring, T.p, regs, O)
Dsts == IF O.op = "QuoRem" THEN {O.d, O.e} ELSE IF O.op = "Evaluate" THEN {} ELSE {O.d}
\* only the destinations change
Framed == \A r \in 1..Len(regs) : r \in Dsts \/ Ev.regs[r] = regs[r]
Right == \A r \in Dsts : Ev.regs[r] = Want[r]
\* the same operation with a destination of its own gives the same
AliasFree == Ev.alt = <<>> \/ (Ev.alt[1] = Ev.regs[O.d] /\ (O.op = "QuoRem" => Ev.alt[2] = Ev.regs[O.e]))
ValueRight == O.op = "Evaluate" => Ev.val = Value(T.p, regs, O)

Group == CASE O.op \in {"Aut", "AutTo"} -> "aut" [] O.op \in {"QuoRem", "Evaluate"} -> "quo" [] OTHER -> "ring"
Why == (IF Ev.pan THEN {"panic"} ELSE {}) \cup (IF ~Framed THEN {"frame"} ELSE {}) \cup (IF ~AliasFree THEN {"alias"} ELSE {})
       \cup (IF ~Right \/ ~ValueRight THEN {"result"} ELSE {}) \cup (IF ~Ev.scalar THEN {"frame"} ELSE {})

\* Registers the specification cannot compute with, after a deviation: the generator's bounds no longer hold for them.
OutOfRange(rs) == \E r \in 1..Len(rs) : \E j \in 1..Len(rs[r].v) : IF T.p > 0 THEN rs[r].v[j] < 0 \/ rs[r].v[j] >= T.p
                                                                ELSE rs[r].v[j] > 1000000000 \/ rs[r].v[j] < -1000000000

Next ==
  /\ l <= Len(T.prog)
  /\ LET w == TLCEval(IF lost THEN {} ELSE IF ~Defined(T.ring, regs, O) THEN {"undefined"} ELSE Why) IN
     /\ IF w = {} THEN TRUE
        ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, at |-> l, op |-> O.op, d |-> O.d, a |-> O.a, b |-> O.b, k |-> O.k, group |-> Group,
                                           why |-> w, n |-> T.n, field |-> T.field]))
     /\ lost' = (lost \/ (w # {} /\ (T.p = 0 \/ OutOfRange(Ev.regs))))
  /\ l' = l + 1 /\ s' = s /\ regs' = Ev.regs
Spec == Init /\ [][Next]_vars
=============================================================================
