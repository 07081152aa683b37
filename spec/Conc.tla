-------------------------------- MODULE Conc --------------------------------
(* Calls made by several processes at the same time.  A call works in steps *)
(* on scratch memory that belongs to the object it is made on: it writes    *)
(* intermediate values there and reads them back later.  What the library   *)
(* promises is that scratch is not shared between a prover and its          *)
(* verifier, between copies of a prover, or between calls on one evaluator; *)
(* then every interleaving gives the results of a sequential run.           *)
EXTENDS Integers, Sequences

CONSTANTS Procs,    \* number of processes
          Steps,    \* values each call keeps in scratch memory
          Shared    \* FALSE as promised; TRUE: one scratch for all (what a defect would be)

VARIABLES at,       \* at[p]: steps made by p (write, read, write, read, ...)
          scratch,  \* scratch[r]: content of region r
          res,      \* res[p]: values read back
          cur, pre  \* running process, preemptions so far
cvars == <<at, scratch, res, cur, pre>>

Region(p) == IF Shared THEN 1 ELSE p
Done(p) == at[p] = 2 * Steps
CInit ==
  /\ at = [p \in 1..Procs |-> 0] /\ scratch = [r \in 1..Procs |-> <<0, 0>>] /\ res = [p \in 1..Procs |-> <<>>]
  /\ cur \in 1..Procs /\ pre = 0

\* the running process makes a step
Step ==
  /\ ~Done(cur)
  /\ at' = [at EXCEPT ![cur] = @ + 1]
  /\ IF at[cur] % 2 = 0
     THEN scratch' = [scratch EXCEPT ![Region(cur)] = <<cur, at[cur]>>] /\ res' = res
     ELSE res' = [res EXCEPT ![cur] = Append(@, scratch[Region(cur)])] /\ scratch' = scratch
  /\ UNCHANGED <<cur, pre>>
\* another process takes over; preempting one that has not finished is counted
Switch ==
  /\ \E q \in 1..Procs : q # cur /\ ~Done(q) /\ cur' = q
  /\ pre' = IF Done(cur) THEN pre ELSE pre + 1
  /\ UNCHANGED <<at, scratch, res>>
CNext == Step \/ Switch
CSpec == CInit /\ [][CNext]_cvars

Bound == pre <= 3
Sequential == \A p \in 1..Procs : \A i \in 1..Len(res[p]) : res[p][i] = <<p, 2 * (i - 1)>>
=============================================================================
