--------------------------- MODULE TranscriptGen ---------------------------
(* Enumerates single alterations of the messages of given proofs, and of    *)
(* single bytes of their challenges.                                        *)
EXTENDS Transcript, Prng, Json, IOUtils

Shapes == ndJsonDeserialize(IOEnv.SHAPES)
Seed0 == atoi(IOEnv.SEED)
Places == atoi(IOEnv.PLACES)

Alt(o, a, b, g, dom, limb, idx, d) == [o |-> o, a |-> a, b |-> b, g |-> g, dom |-> dom, limb |-> limb, idx |-> idx, d |-> d]
At(t, c, i) == Mix(1 + (((Seed0 * 7727) + (t * 30011) + (c * 211) + (i * 5003)) % 2000000000))
Case(k, a) == [k |-> k, a |-> a]

S(t) == Shapes[t]
Names == {"projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint"}

\* places in a ring element: its first and last residue, and drawn ones
BumpAt(t, c, i) ==
  LET q == At(t, c, i)
      co == S(t).comps[c]
      limb == CASE i = 1 -> 0 [] i = 2 -> co.limbs - 1 [] OTHER -> R(q, 1, co.limbs)
      idx == CASE i = 1 -> 0 [] i = 2 -> S(t).rank - 1 [] OTHER -> R(q, 2, S(t).rank)
  IN IF co.kind = "elem" THEN Alt("bump", c, 0, "", "", 0, 0, RS(q, 3, <<1, -1, 2, 1 + R(q, 4, 1000000)>>))
     ELSE Alt("bump", c, 0, "", "n", limb, idx, RS(q, 5, <<1, -1, RR(q, 6, 2, 100)>>))

Light(t) == S(t).light
CompCases(t) ==
  LET cs == {c \in 1..Len(S(t).comps) : S(t).comps[c].g \in {"com", "linsum", "sumsum"}}
  IN {Case("comp", BumpAt(t, c, i)) : c \in (IF Light(t) THEN {c \in cs : S(t).comps[c].kind = "elem" \/ R(At(t, c, 9), 1, 4) = 0} ELSE cs),
                                      i \in 1..(IF Light(t) THEN 1 ELSE Places)}
PubCases(t) ==
  \* one slot off by d * 2^b, and half of the time its neighbour off by -limb times that
  UNION {{Case("pub", Alt("", v, RS(At(t, v, 77 + j), 2, <<0, 0, 8, 32, 62, 64, 96>>), "", "", RS(At(t, v, 77 + j), 3, <<0, 0, 0, 1, 2, 3>>), j,
                          RS(At(t, v, 77 + j), 1, <<1, -1, 1000, -999999>>))) :
            j \in (IF S(t).n <= 8 * Places THEN 0..(S(t).n - 1) ELSE {0, S(t).n - 1, R(At(t, v, 5), 1, S(t).n)})} : v \in 1..S(t).np}
FlipCases(t) ==
  {Case("flip", Alt("", 0, 0, m, "", 0, i, 2 ^ R(At(t, i, 3), 4, 8))) :
     m \in Names, i \in (IF t = 1 \/ Places > 3 THEN 0..31 ELSE {0, 31, R(At(t, 1, 2), 1, 32)})}

\* openings: every commitment of the batch, every value, every partial opening
PcsCases(t) ==
  LET q(i) == At(t, 0, i)
      batch == Len(S(t).lens)
      d(i) == RS(q(i), 1, <<1, -1, 12345>>)
  IN {Case("crs", Alt("", 0, 0, "", "", 0, 0, 0)), Case("point", Alt("", 0, 0, "", "", 0, 0, d(1)))}
     \cup {Case("com", Alt("", i, k, "", "n", R(q(i + 10), 2, 8), R(q(i + 10), 3, 1024), 1)) : i \in 0..(batch - 1), k \in 0..(Places - 1)}
     \cup {Case("value", Alt("", i, 0, "", "", 0, 0, d(i + 20))) : i \in 0..(batch - 1)}
     \cup {Case("partial", Alt("", i, k, "", "", 0, R(q(i + 30 + k), 2, 1024), 1 + R(q(i + 30), 3, 50))) : i \in {0, batch - 1}, k \in 0..(3 * Places)}
     \cup {Case("mask", Alt("", i, 0, "", "", 0, R(q(i + 60), 2, 1024), 1 + R(q(i + 60), 3, 50))) : i \in 0..(batch - 1)}

Cases(t) == IF S(t).kind = "circuit" THEN CompCases(t) \cup PubCases(t) \cup FlipCases(t) ELSE PcsCases(t)

VARIABLES t, c
Init == t \in 1..Len(Shapes) /\ c \in Cases(t) /\ PrintT(ToJson([t |-> Shapes[t].id, c |-> c]))
Next == FALSE /\ UNCHANGED <<t, c>>
Spec == Init /\ [][Next]_<<t, c>>
=============================================================================
