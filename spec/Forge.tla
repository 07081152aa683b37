------------------------------- MODULE Forge --------------------------------
(* An opening as a chain of five answers: the commitments, the inner        *)
(* commitments, the responses, the partial openings and the claimed values. *)
(* An honest prover takes all five from one source.  A cheating one may     *)
(* take each from another source, or mix sources within one of them, and    *)
(* may enlarge what it answers with.  The verifier accepts exactly if each  *)
(* answer agrees with the next and both norms are below their bounds.       *)
EXTENDS Integers, Sequences, FiniteSets

Links == <<"commitment", "inner", "response", "partial", "claims">>

\* Where the answers come from; a mixture is a source of its own.
Mixed == 9
Chain(k) == <<IF k.mix \in {"outer", "inner"} THEN Mixed ELSE k.c,
              IF k.mix = "inner" THEN Mixed ELSE k.n,
              k.r,
              IF k.mix = "partial" THEN Mixed ELSE k.p,
              IF k.mix = "claims" THEN Mixed ELSE k.y>>

\* Enlarging the noise of the mask column, or what was cut off a commitment,
\* leaves every equation true.
Loose(form) == form \in {"bigcut", "bigout"}

\* Links that do not hold.
Broken(k, same) == {i \in 1..4 : LET c == Chain(k) IN
                      /\ c[i] # c[i + 1]
                      /\ ~(i = 4 /\ same)              \* both sources have the same values
                      /\ ~(i = 1 /\ k.form = "bigout" /\ k.mix = "")
                      /\ ~(i = 2 /\ k.form = "bigcut" /\ k.mix = "")}

\* Norms in thousandths of the bounds, rounded down: one thousandth is left open.
Small(res, dcmp) == res < 999 /\ dcmp < 999
Large(res, dcmp) == res > 1000 \/ dcmp > 1000

Verdicts(k, same, res, dcmp) ==
  IF Broken(k, same) # {} \/ Large(res, dcmp) THEN {FALSE}
  ELSE IF Small(res, dcmp) THEN {TRUE}
  ELSE {TRUE, FALSE}

\* What it is for: nothing is accepted but claims about what was committed.
Sound(k, same) == (Verdicts(k, same, 0, 0) = {TRUE}) => (Chain(k)[1] = Chain(k)[5] \/ same \/ k.form \in {"bigout", "bigcut"})
=============================================================================
