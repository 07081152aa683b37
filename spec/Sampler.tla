------------------------------ MODULE Sampler ------------------------------
(* Samplers as streams.  A stream is named by its seed (or is fresh), and    *)
(* what a call delivers is a function of the stream and of the calls made on *)
(* it before: an unknown function, of which "memo" holds what was seen.      *)
(* Nothing delivered by one stream is delivered again, by it or by another.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES objs,  \* [kind, key, hist]: kind "u" (words), "g" and "t" (Gaussian); hist the calls made
          memo,  \* <<kind, key, hist>> -> what was delivered
          given, \* for each object, the stretches delivered
          pars,  \* parameter sets: <<capacity, batch>>
          keys   \* commitment keys made: [seed, par, parts]

SInit == objs = <<>> /\ memo = {} /\ given = <<>> /\ pars = <<>> /\ keys = {}

Make(kind, key) == /\ objs' = Append(objs, [kind |-> kind, key |-> key, hist |-> <<>>])
                   /\ given' = Append(given, {})
                   /\ UNCHANGED <<memo, pars, keys>>
\* the j-th object of a kind
Nth(kind, j) == CHOOSE o \in 1..Len(objs) : objs[o].kind = kind /\ Cardinality({m \in 1..o : objs[m].kind = kind}) = j
Point(o, call) == <<objs[o].kind, objs[o].key, Append(objs[o].hist, call)>>
Reproduces(o, call, out) == \A m \in memo : m[1] = Point(o, call) => m[2] = out
New(o, call) == ~\E m \in memo : m[1] = Point(o, call)
Fresh(o, stretches) == \A q \in 1..Len(objs) : (q = o \/ <<objs[q].kind, objs[q].key>> # <<objs[o].kind, objs[o].key>>) => (given[q] \cap stretches) = {}
Deliver(o, call, out, stretches) ==
  /\ memo' = memo \cup {<<Point(o, call), out>>}
  /\ objs' = [objs EXCEPT ![o].hist = Append(@, call)]
  /\ given' = [given EXCEPT ![o] = @ \cup stretches]
  /\ UNCHANGED <<pars, keys>>

\* commitment keys
SameKey(seed, par, out) == \A k \in keys : (k.seed = seed /\ k.par = par) => k.out = out
OwnKey(seed, parts) == \A k \in keys : k.seed # seed => (k.parts \cap parts) = {}
AddKey(seed, par, out, parts) == keys' = keys \cup {[seed |-> seed, par |-> par, out |-> out, parts |-> parts]} /\ UNCHANGED <<objs, memo, given, pars>>

\* m samples fall evenly into k classes: within seven standard deviations
Even(cnt, m) == LET k == Len(cnt) IN \A c \in 1..k : LET d == (cnt[c] * k) - m IN d * d <= 49 * m * (k - 1)
EvenBits(ones, m) == \A j \in 1..Len(ones) : LET d == (2 * ones[j]) - m IN d * d <= 49 * m
============================================================================
