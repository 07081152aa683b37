-------------------------- MODULE TranscriptTrace --------------------------
(* Validates recorded challenges: an altered message changes every          *)
(* challenge that must depend on it, challenges of one proof differ from    *)
(* each other and from proof to proof, every byte of a challenge that is    *)
(* used matters, and the challenges of an opening have the declared form.   *)
EXTENDS Transcript, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Trace[s]
NC == Len(T.names)

\* -- whole proofs (l = 0) ---------------------------------------------------
Twice == {<<i, j>> \in (1..NC) \X (1..NC) : i < j /\ T.chal[1][i] # 0 /\ T.chal[1][i] = T.chal[1][j]}
\* Something sent in time for challenge i differs between the two proofs.
Differs(i) == \E c \in 1..Len(T.comps) : T.ccls[1][c] # T.ccls[2][c] /\ ComponentRound(T.circ, T.comps, c) <= ChallengeRound(T.names[i])
                                          /\ T.comps[c].g = "com"
Repeated == IF T.kind # "circuit" THEN {} ELSE {i \in 1..NC : T.chal[1][i] # 0 /\ T.chal[1][i] = T.chal[2][i] /\ Differs(i)}
Formless == {i \in 1..Len(T.forms) : T.forms[i].off # 0 \/ T.forms[i].max > T.bound \/ T.forms[i].min < -T.bound}
\* Both ends of the range are approached, and at least half of the coefficients (or of the range) occur.
Narrow == /\ T.kind # "circuit" /\ T.spread[4] >= 64
          /\ \/ 2 * T.spread[1] > -T.bound \/ 2 * T.spread[2] < T.bound
             \/ 2 * T.spread[3] < (IF T.spread[4] < 2 * T.bound + 1 THEN T.spread[4] ELSE 2 * T.bound + 1) /\ T.spread[4] >= 10
Whole ==
  IF ~T.ok THEN {}
  ELSE (IF Twice # {} THEN {"equal challenges"} ELSE {}) \cup (IF Repeated # {} THEN {"challenge repeated in another proof"} ELSE {})
       \cup (IF Formless # {} THEN {"challenge out of form"} ELSE {}) \cup (IF Narrow THEN {"challenges from a small range"} ELSE {})

\* -- single cases -------------------------------------------------------------
Case(c) == T.cases[c]
Kept(c) == {i \in 1..NC : /\ T.chal[1][i] # 0 /\ i <= Len(Case(c).cls) /\ Case(c).cls[i] = T.chal[1][i]
                          /\ DependsOn(T.circ, T.comps, Case(c).k, Case(c).a, T.names[i])}
\* A byte that does not matter although another byte of the same challenge does.
Ignored(c) == /\ Case(c).k = "flip" /\ Case(c).acc
              /\ \E d \in 1..Len(T.cases) : Case(d).k = "flip" /\ Case(d).a.g = Case(c).a.g /\ ~Case(d).acc /\ ~Case(d).pan
One(c) ==
  IF ~T.ok \/ ~T.base[1] THEN {}
  ELSE IF Case(c).k = "flip" THEN (IF Ignored(c) THEN {"ignored byte of " \o Case(c).a.g} ELSE {})
  ELSE {"unchanged " \o T.names[i] : i \in Kept(c)}

Init == s \in 1..Len(Trace) /\ l = -1
Step ==
  /\ l < Len(T.cases) /\ l' = l + 1 /\ s' = s
  /\ LET why == TLCEval(IF l' = 0 THEN Whole ELSE One(l')) IN
     IF why = {} THEN TRUE
     ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, field |-> T.field, at |-> l', why |-> why,
                  case |-> IF l' = 0 THEN "" ELSE Case(l').k, a |-> IF l' = 0 THEN "" ELSE Case(l').a,
                  on |-> IF l' > 0 /\ Case(l').k = "comp" THEN T.comps[Case(l').a.a].g ELSE ""]))
Spec == Init /\ [][Step]_vars
=============================================================================
