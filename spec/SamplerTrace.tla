---------------------------- MODULE SamplerTrace ----------------------------
(* Validates recorded histories of samplers and commitment keys.            *)
EXTENDS Sampler, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<objs, memo, given, pars, keys, s, l>>
T == Trace[s]
Ev == T.ev[l]

Call == <<Ev.op, Ev.n, Ev.a, Ev.e, Ev.b, Ev.k>>
Windows(h) == {SubSeq(h, (2 * i) + 1, (2 * i) + 16) : i \in 0..((Len(h) \div 2) - 8)}
\* stretches long enough not to repeat by chance
Long == CASE Ev.op = "samplen" -> Ev.n >= 4 /\ (Ev.e >= 32 \/ Ev.a >= 2000000000)
          [] Ev.op = "float" -> Ev.n >= 4
          [] Ev.op \in {"gsample", "tsample"} -> Ev.n >= 60
          [] OTHER -> FALSE
Stretches == IF Ev.op \in {"read", "sample"} THEN Windows(Ev.hex) ELSE IF Long THEN {Ev.dig} ELSE {}
Words == (Len(Ev.hex) \div 16)

Kind == CASE Ev.op \in {"read", "sample", "samplen", "float"} -> "u" [] Ev.op = "gsample" -> "g" [] Ev.op \in {"tsample", "tcopy"} -> "t" [] OTHER -> ""
O == Nth(Kind, Ev.s)
Out == <<Ev.dig, Ev.hex>>
Why(st) ==
  (IF Ev.pan THEN {"panic"} ELSE {}) \cup (IF Ev.good THEN {} ELSE {"contract"})
  \cup (IF Ev.op \in {"read", "sample", "samplen", "float", "gsample", "tsample"} /\ ~Ev.pan
        THEN (IF Reproduces(O, Call, Out) THEN {} ELSE {"not reproducible"})
             \cup (IF Fresh(O, st) /\ (Ev.op \notin {"read", "sample"} \/ Cardinality(st) = (IF Len(Ev.hex) < 16 THEN 0 ELSE (Len(Ev.hex) \div 2) - 7)) THEN {} ELSE {"delivered twice"})
             \cup (IF Ev.out = 0 THEN {} ELSE {"out of range"})
             \cup (IF Ev.op \in {"samplen", "float"} /\ ~Even(Ev.cnt, Ev.n) THEN {"biased"} ELSE {})
             \cup (IF Ev.op \in {"read", "sample"} /\ Words >= 64 /\ ~EvenBits(Ev.ones, Words) THEN {"biased"} ELSE {})
        ELSE {})
  \cup (IF Ev.op = "key" /\ ~Ev.pan
        THEN (IF SameKey(T.seeds[Ev.s], pars[Ev.k], Out) THEN {} ELSE {"not reproducible"})
             \cup (IF OwnKey(T.seeds[Ev.s], st) /\ Cardinality(st) = Len(Ev.parts) THEN {} ELSE {"delivered twice"})
             \cup (IF Ev.out = 0 THEN {} ELSE {"out of range"})
        ELSE {})

Init == SInit /\ s \in 1..Len(Trace) /\ l = 1
Next ==
  /\ l <= Len(T.ev)
  /\ LET st == TLCEval(IF Ev.op = "key" THEN {Ev.parts[i] : i \in 1..Len(Ev.parts)} ELSE Stretches)
         w == TLCEval(Why(st)) IN
     /\ IF w = {} THEN TRUE
        ELSE PrintT("DEVIATION " \o ToJson([id |-> T.id, at |-> l, op |-> Ev.op, why |-> w]))
     /\ CASE Ev.op = "seeded"  -> Make("u", T.seeds[Ev.s])
          [] Ev.op = "fresh"   -> Make("u", <<-l>>)
          [] Ev.op = "gseeded" -> Make("g", T.seeds[Ev.s])
          [] Ev.op = "gfresh"  -> Make("g", <<-l>>)
          [] Ev.op \in {"tfresh", "tcopy"} -> Make("t", <<-l>>)
          [] Ev.op = "params"  -> pars' = Append(pars, <<Ev.e, Ev.n, Ev.k>>) /\ UNCHANGED <<objs, memo, given, keys>>
          [] Ev.op = "key"     -> AddKey(T.seeds[Ev.s], pars[Ev.k], Out, st)
          [] OTHER             -> Deliver(O, Call, Out, st)
  /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
