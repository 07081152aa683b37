----------------------------- MODULE CheatTrace -----------------------------
(* Validates recorded verdicts on proofs by provers that cheat: a proof for *)
(* an assignment that breaks the circuit is never accepted.                 *)
EXTENDS Cheat, Relation, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Trace[s]
K == T.cases[l]

Made(k) == IF "place" \in DOMAIN k THEN k.ok ELSE k.made
Verdicts(k) == IF ~Made(k) THEN {FALSE}
               ELSE CASE Verdict(T.circ, T.asgs[k.a]) = "unsat" -> {FALSE}
                      [] OTHER -> BOOLEAN
Why(k) == IF "place" \in DOMAIN k THEN Wrong([place |-> k.place, part |-> k.part, keep |-> k.keep]) ELSE {k.kind}

Init == s \in 1..Len(Trace) /\ l = 1
Step ==
  /\ l <= Len(T.cases)
  /\ IF ~K.pan /\ K.acc \in Verdicts(K) THEN TRUE
     ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, field |-> T.field, case |-> K, why |-> Why(K),
                 broken |-> {T.circ.cons[i].t : i \in {j \in 1..Len(T.circ.cons) : Judge(T.circ, T.asgs[K.a], T.circ.cons[j]) = "unsat"}}]))
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
