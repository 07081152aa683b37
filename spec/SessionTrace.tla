---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded sessions.  Every recorded call must be a step of      *)
(* Session with the recorded result, and must leave its arguments intact.   *)
(* A call that is not is reported and its recorded result adopted, so that  *)
(* the rest of the session is examined too.                                 *)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,  \* recorded session
          l   \* next call of it
tvars == <<pairs, proofs, s, l>>

TCirc(c) == Trace[s].circs[c]
TAsg(a) == Trace[s].asgs[a]

Ev == Trace[s].ev[l]

Allowed ==
  /\ Ev.intact
  /\ CASE Ev.op = "compile" -> Ev.res = "ok"
       [] Ev.op = "prove"   -> Ev.res \in ProveResults(Ev.pair, Ev.asg)
       [] Ev.op = "tamper"  -> TRUE
       [] Ev.op = "verify"  -> Ev.res = "ok" /\ Ev.acc \in VerifyResults(Ev.pair, Ev.pf, Ev.asg)

Kinds(ci) == {ci.cons[i].t : i \in 1..Len(ci.cons)}
Broken(ci, a) == {ci.cons[i].t : i \in {j \in 1..Len(ci.cons) : Judge(ci, a, ci.cons[j]) = "unsat"}}

\* What a deviation means, and the constraint types it concerns.
Why ==
  LET ci == Circ(pairs[Ev.pair].c)
      P  == proofs[Ev.pf]
      a  == Asg(Ev.asg)
      w(c, k) == [class |-> c, kinds |-> k]
  IN CASE Ev.op = "compile" -> w("incomplete", Kinds(Circ(Ev.c)))
       [] ~Ev.intact        -> w("mutated", {})
       [] Ev.op = "prove" /\ (~WellFormed(ci, a) \/ ci.shape # a.shape) -> w("malformed", {})
       [] Ev.op = "prove"   -> w("incomplete", Kinds(ci))
       [] Ev.op = "verify" /\ (~WellFormedPub(ci, a) \/ ci.shape # a.shape) -> w("malformed", {})
       [] P.tampered        -> w("tampered", {})
       [] Ev.res # "ok" \/ ~Ev.acc -> w("incomplete", Kinds(ci))
       [] pairs[Ev.pair].crs # pairs[P.pair].crs -> w("binding", {})
       [] a.pub # Asg(P.asg).pub -> w("binding", {})
       [] pairs[Ev.pair].c # pairs[P.pair].c -> w("binding", Broken(ci, Asg(P.asg)))
       [] OTHER -> w("unsound", Broken(ci, Asg(P.asg)))

TInit == SInit /\ s \in 1..Len(Trace) /\ l = 1

More == l <= Len(Trace[s].ev)
Advance == l' = l + 1 /\ s' = s

TCompile == Ev.op = "compile" /\ Compile(Ev.c, Ev.crs)
TProve   == Ev.op = "prove"   /\ Prove(Ev.pair, Ev.asg, Ev.res)
TTamper  == Ev.op = "tamper"  /\ Tamper(Ev.pf)
TVerify  == Ev.op = "verify"  /\ Verify(Ev.pair, Ev.pf, Ev.asg, Ev.acc)

Follow == More /\ Allowed /\ (TCompile \/ TProve \/ TTamper \/ TVerify) /\ Advance

Deviate ==
  /\ More /\ ~Allowed
  /\ PrintT("DEVIATION " \o ToJson([id |-> Trace[s].id, at |-> l, ev |-> Ev, why |-> Why]))
  /\ CASE Ev.op = "compile" -> pairs' = Append(pairs, [c |-> Ev.c, crs |-> Ev.crs]) /\ UNCHANGED proofs
       [] Ev.op = "prove"   -> proofs' = Append(proofs, [pair |-> Ev.pair, asg |-> Ev.asg, made |-> Ev.res = "ok", tampered |-> FALSE])
                               /\ UNCHANGED pairs
       [] OTHER -> UNCHANGED svars
  /\ Advance

TNext == Follow \/ Deviate
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
