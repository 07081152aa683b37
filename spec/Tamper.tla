------------------------------- MODULE Tamper -------------------------------
(* Proofs under alteration.  An artefact (a proof with the statement it is  *)
(* verified against) is a vector of components.  The value of a component   *)
(* is a token: the number of an original value and the differences added to *)
(* it since.  Verification accepts exactly the artefacts that are, in every *)
(* component, one that an honest prover made; the noise part of the opening *)
(* is not judged on its own, its bound is the subject of another module.    *)
EXTENDS Integers, Sequences, FiniteSets

Token(class) == [c |-> class, m |-> {}]

\* Adding d at a place of a component; nothing is left of differences that cancel.
Shifted(tok, place, d) ==
  LET old == {x \in tok.m : x[1] = place}
      new == d + (IF old = {} THEN 0 ELSE (CHOOSE x \in old : TRUE)[2])
  IN [tok EXCEPT !.m = (@ \ old) \cup (IF new = 0 THEN {} ELSE {<<place, new>>})]

Place(kind, o) == IF kind = "elem" THEN <<"e", 0, 0>> ELSE IF o.dom = "n" THEN <<"n", o.limb, o.idx>> ELSE <<"c", 0, o.idx>>

\* comps: the components, cls: values per source (1: the base, then the donors).
Alter(comps, cls, content, o) ==
  CASE o.o = "bump"  -> [content EXCEPT ![o.a] = Shifted(@, Place(comps[o.a].kind, o), o.d)]
    [] o.o = "swap"  -> [content EXCEPT ![o.a] = content[o.b], ![o.b] = content[o.a]]
    [] o.o = "graft" -> [content EXCEPT ![o.a] = Token(cls[o.b + 1][o.a])]
    [] o.o = "group" -> [c \in DOMAIN content |-> IF comps[c].g = o.g THEN Token(cls[o.b + 1][c]) ELSE content[c]]
    [] o.o = "all"   -> [c \in DOMAIN content |-> Token(cls[o.b + 1][c])]
    [] OTHER -> content

\* Whatever else happens, the artefact has lost its form.
Misshapes(o) == o.o \in {"list", "ptr", "poly"}

Noise(comps) == {c \in DOMAIN comps : comps[c].g = "mlwe"}

\* The verdicts allowed.
Verdicts(comps, cls, honest, content, broken) ==
  LET Is(s, D) == \A c \in D : content[c] = Token(cls[s][c])
      all == DOMAIN comps
      judged == all \ Noise(comps)
  IN IF broken THEN {FALSE}
     ELSE IF \E s \in 1..Len(cls) : honest[s] /\ Is(s, all) THEN {TRUE}
     ELSE IF \E s \in 1..Len(cls) : Is(s, judged) THEN {TRUE, FALSE}
     ELSE {FALSE}
=============================================================================
