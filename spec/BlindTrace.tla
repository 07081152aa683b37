----------------------------- MODULE BlindTrace -----------------------------
(* Validates what was measured on real proofs under controlled draws.       *)
EXTENDS Blind, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
T == Trace[s]

Why(t) ==
  CASE ~t.ok -> {"no proof"}
    [] t.what = "rank" /\ t.kind = "circuit" ->
         (IF t.lin = HasLin(t.circ) /\ t.sum = HasSum(t.circ) THEN {} ELSE {"missing mask"})
         \cup (IF Judged(t.circ) /\ ~CircuitBlinded(t.circ, t.evals, t.mats, t.p) THEN {"revealed values are not jointly blinded"} ELSE {})
    [] t.what = "rank" -> IF OpeningBlinded(t.mats[1], t.cells, t.slots, t.rows, t.right, t.p) THEN {} ELSE {"partial values are not jointly blinded"}
    [] t.what = "fresh" ->
         {t.parts[k] \o " repeated" : k \in Repeated(t.cls, t.zero)} \cup {t.parts[k] \o " shared" : k \in Shared(t.cls, t.zero)}
    [] t.what = "noise" -> {t.noise[i].g \o " noise" : i \in {j \in 1..Len(t.noise) : ~NoiseGood(t.noise[j])}}

Init == s \in 1..Len(Trace) /\ l = 1
Step ==
  /\ l = 1
  /\ LET w == Why(T) IN
     IF w = {} THEN TRUE
     ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, kind |-> T.kind, what |-> T.what, field |-> T.field, cap |-> T.cap, lens |-> T.lens, why |-> w]))
  /\ l' = 2 /\ s' = s
Spec == Init /\ [][Step]_vars
=============================================================================
