----------------------------- MODULE TamperGen -----------------------------
(* Enumerates the alterations of Tamper for artefacts of given forms: every *)
(* single one, at drawn places of each component, and drawn sequences, some *)
(* of which restore the artefact or turn it into another honest one.        *)
EXTENDS Tamper, Prng, Json, IOUtils, SequencesExt

Shapes == ndJsonDeserialize(IOEnv.SHAPES)
Seed0 == atoi(IOEnv.SEED)
Places == atoi(IOEnv.PLACES)   \* places per component
Seqs == atoi(IOEnv.SEQS)       \* sequences per artefact

Alt(o, a, b, g, dom, limb, idx, d) == [o |-> o, a |-> a, b |-> b, g |-> g, dom |-> dom, limb |-> limb, idx |-> idx, d |-> d]
At(t, c, i) == Mix(1 + (((Seed0 * 7727) + (t * 30011) + (c * 211) + (i * 5003)) % 2000000000))

Comps(t) == Shapes[t].comps
Like(t, c) == SetToSeq({d \in 1..Len(Comps(t)) : d # c /\ Comps(t)[d].kind = Comps(t)[c].kind})

BumpAt(t, c, q, i) ==
  LET co == Comps(t)[c] IN
  IF co.kind = "elem" THEN Alt("bump", c, 0, "", "", 0, 0, RS(q, 1, <<1, -1, 2, 1 + R(q, 2, 1000000)>>))
  ELSE LET idx == RS(q, 3, <<0, Shapes[t].n - 1, R(q, 4, Shapes[t].n), R(q, 5, Shapes[t].n)>>)
       IN Alt("bump", c, 0, "", IF (c + i) % 2 = 0 THEN "c" ELSE "n", IF (c + i) % 2 = 0 THEN 0 ELSE R(q, 6, co.limbs), idx, RS(q, 7, <<1, -1, 1, RR(q, 8, 2, 100)>>))

NComps(t) == Len(Comps(t))
Bumpable(t) == {c \in 1..NComps(t) : Comps(t)[c].kind # "crs"}
\* many of a group, or few
Wide(t, c) == Comps(t)[c].g \in {"com", "incommit", "mlwe"}
Bumps(t) == UNION {{BumpAt(t, c, At(t, c, i), i) : i \in 1..(IF Wide(t, c) THEN Places ELSE 6 * Places)} : c \in Bumpable(t)}
SwapAt(t, c, q) == LET o == TLCEval(Like(t, c)) IN Alt("swap", c, IF o = <<>> THEN c ELSE RS(q, 1, o), "", "", 0, 0, 0)
Swaps(t) == {SwapAt(t, c, At(t, c, 50)) : c \in 1..NComps(t)}
Grafts(t) == {Alt("graft", c, 1 + ((c + b + Seed0) % 2), "", "", 0, 0, 0) : c \in 1..NComps(t), b \in 1..(IF Places > 1 THEN 2 ELSE 1)}
Groups(t) == {Comps(t)[c].g : c \in 1..NComps(t)}
GroupGrafts(t) == {Alt("group", 0, b, g, "", 0, 0, 0) : g \in Groups(t), b \in 1..2} \cup {Alt("all", 0, b, "", "", 0, 0, 0) : b \in 1..2}

Lists(t) == (IF Shapes[t].kind = "circuit" THEN {"com", "eval"} ELSE {}) \cup {"value", "incommit", "partial", "encode", "mlwe"}
Pointers(t) == IF Shapes[t].kind = "circuit" THEN {"proof", "open", "com", "eval", "linsum", "sumsum"} ELSE {"open", "com"}
Misshaped(t) ==
  {Alt("list", R(Seed0, 11, Shapes[t].coms), 0, g, h, 0, 0, 0) : g \in Lists(t), h \in {"droplast", "dropfirst", "dup", "empty", "nil"}}
  \cup {Alt("ptr", a, 0, g, "", 0, 0, 0) : g \in Pointers(t) \ {"com", "eval"}, a \in {0}}
  \cup {Alt("ptr", a, 0, g, "", 0, 0, 0) : g \in Pointers(t) \cap {"com", "eval"}, a \in {0, R(Seed0, 12, Shapes[t].coms), Shapes[t].coms - 1}}
  \cup {Alt("poly", c, 0, RS(At(t, c, 60 + i), 1, <<"none", "droplimb", "addlimb", "cut", "cutlast", "grow", "growlast", "nillimb">>), "", 0, 0, 0) :
          i \in 1..Places, c \in {c \in 1..Len(Comps(t)) : Comps(t)[c].kind \in {"q", "qout"}}}

Undo(a) == IF a.o = "bump" THEN [a EXCEPT !.d = -@] ELSE a    \* a swap undoes itself
\* A sequence of alterations.
Sequence(t, q) ==
  LET gg == SetToSeq(Groups(t))
      NC == NComps(t)
      BumpOf(i) == BumpAt(t, RR(q, i, 2, NC), PM((q \div 2) + i), R(q, i + 1, 2))     \* the first component is the CRS
      SwapOf(i) == SwapAt(t, RR(q, i, 1, NC), PM((q \div 2) + i))
      GraftOf(i) == Alt("graft", RR(q, i, 1, NC), 1 + R(q, i + 1, 2), "", "", 0, 0, 0)
      Some(i) == LET w == R(q, i, 3) IN IF w = 0 THEN BumpOf(i + 1) ELSE IF w = 1 THEN SwapOf(i + 1) ELSE GraftOf(i + 1)
      Und(i) == IF R(q, i, 2) = 0 THEN BumpOf(i + 1) ELSE SwapOf(i + 1)
      a == Und(10)
      b == Und(20)
      don == 1 + R(q, 30, 2)
  IN CASE R(q, 1, 6) = 0 -> <<a, Undo(a)>>
       [] R(q, 1, 6) = 1 -> <<a, b, Undo(b), Undo(a)>>
       [] R(q, 1, 6) = 2 -> [i \in 1..Len(gg) |-> Alt("group", 0, don, gg[i], "", 0, 0, 0)]
       [] R(q, 1, 6) = 3 -> <<Alt("all", 0, don, "", "", 0, 0, 0), a, Undo(a)>>
       [] R(q, 1, 6) = 4 -> <<Some(40), Some(50), Some(60)>>
       \* the same difference moved from one component to another of its kind
       [] OTHER -> LET x == BumpOf(70)
                       o == Like(t, x.a)
                   IN IF o = <<>> THEN <<x>> ELSE <<x, [x EXCEPT !.a = RS(q, 71, o), !.d = -x.d]>>

Cases(t) == {<<a>> : a \in Bumps(t) \cup Swaps(t) \cup Grafts(t) \cup GroupGrafts(t) \cup Misshaped(t)}
            \cup {Sequence(t, At(t, 0, 1000 + i)) : i \in 1..Seqs}

VARIABLES t, ops
Init == t \in 1..Len(Shapes) /\ ops \in Cases(t) /\ PrintT(ToJson([t |-> Shapes[t].id, ops |-> ops]))
Next == FALSE /\ UNCHANGED <<t, ops>>
Spec == Init /\ [][Next]_<<t, ops>>
=============================================================================
