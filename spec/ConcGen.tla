------------------------------- MODULE ConcGen -------------------------------
(* Schedules for the driver, from SEED: preemption-bounded ones, whose      *)
(* switch points are spread over the gates of each process, and ones that   *)
(* alternate after every few gates.                                         *)
EXTENDS Integers, Sequences, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Procs == atoi(IOEnv.PROCS)

VARIABLES k
Sl(p, g, f) == [p |-> p, g |-> g, f |-> f]
Other(s, i, p) == (p + 1 + R(s, i, Procs - 1)) % Procs
RECURSIVE Walk(_, _, _, _)
\* processes of the slices: no process twice in a row
Walk(s, i, p, n) == IF n = 0 THEN <<>> ELSE LET q == Other(s, i, p) IN <<q>> \o Walk(s, i + 1, q, n - 1)

\* preempt p at one to four points; in between others run for a part of their gates or to the end
Few(s) ==
  LET n == RR(s, 1, 1, 4)
      ps == <<R(s, 2, Procs)>> \o Walk(s, 10, R(s, 2, Procs), 2 * n)
  IN [cyc |-> FALSE, slices |-> [i \in 1..Len(ps) |->
        Sl(ps[i], 0, IF (i % 2) = 0 /\ R(s, 30 + i, 2) = 0 THEN 1000000 ELSE RR(s, 40 + i, 1, 1000000))]]
Pow2(e) == 2^e
Many(s) ==
  LET m == RS(s, 1, <<1, 2, 4, 6, 8, 10, 12>>)
      ps == <<R(s, 2, Procs)>> \o Walk(s, 10, R(s, 2, Procs), 23)
  IN [cyc |-> TRUE, slices |-> [i \in 1..24 |-> Sl(ps[i], RR(s, 40 + i, 1, Pow2(m)), 0)]]

Case(i) == LET s == Mix(PM(1 + (Seed0 % 100000) * 1009 + (Procs * 131071) + i)) IN IF (i % 2) = 0 THEN Few(s) ELSE Many(s)
Init == k = 1
Next == k <= Count /\ PrintT(ToJson(Case(k))) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
