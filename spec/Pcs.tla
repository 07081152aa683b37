-------------------------------- MODULE Pcs --------------------------------
(* Polynomial commitments as a history: provers and verifiers under several *)
(* CRSs, commitments to known polynomials, openings of batches at points.   *)
(* An opening is accepted exactly for the statement it was made for, and    *)
(* claims the values of the committed polynomials.                          *)
EXTENDS Ring

CONSTANT World   \* the worlds a history may play in: [p (the modulus, 0: integers), polys, points]

VARIABLES s,         \* the world of this history
          provers,   \* CRS of each prover
          coms,      \* [crs, poly] of each commitment
          opens      \* [crs, coms, x] of each opening
pvars == <<provers, coms, opens>>

Poly(v) == World[s].polys[v]
Point(x) == World[s].points[x]
P == World[s].p

PInit == s \in 1..Len(World) /\ provers = <<>> /\ coms = <<>> /\ opens = <<>>

NewProver(crs) == provers' = Append(provers, crs) /\ UNCHANGED <<coms, opens>>
CopyProver(q) == provers' = Append(provers, provers[q]) /\ UNCHANGED <<coms, opens>>
Commit(q, v) == coms' = Append(coms, [crs |-> provers[q], poly |-> v]) /\ UNCHANGED <<provers, opens>>

Values(cs, x) == [i \in 1..Len(cs) |-> REval(P, Poly(coms[cs[i]].poly), Point(x))]
Open(q, cs, x) == opens' = Append(opens, [crs |-> provers[q], coms |-> cs, x |-> x]) /\ UNCHANGED <<provers, coms>>

\* Verifying opening o for commitments cs, point x and the values claimed in opening w, under a CRS.
Verdict(crs, o, cs, x, w) ==
  LET same == opens[o].crs = crs /\ opens[o].coms = cs /\ opens[o].x = x
      own == \A i \in 1..Len(cs) : coms[cs[i]].crs = opens[o].crs
      vals == Len(opens[w].coms) = Len(cs) /\ Values(opens[w].coms, opens[w].x) = Values(cs, x)
  IN IF same /\ vals /\ own THEN {TRUE} ELSE IF ~own THEN {TRUE, FALSE} ELSE {FALSE}
=============================================================================
