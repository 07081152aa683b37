----------------------------- MODULE SessionGen -----------------------------
(* Builds sessions: a circuit constraint by constraint together with an     *)
(* assignment that satisfies it (each constraint is balanced as it is       *)
(* added), then variants of the assignment that break it, then a history of *)
(* calls.  Used with TLC -simulate: each behaviour prints one scenario.     *)
EXTENDS Relation, Prng, Json, IOUtils

Focus == IOEnv.FOCUS
Field == IOEnv.FIELD
Mode  == IOEnv.MODE
Ranks == LET f == IOEnv.RANKS IN
         CASE f = "small" -> <<2, 4, 8, 8, 16>>
           [] f = "mid"   -> <<8, 16, 32, 64>>
           [] f = "eight" -> <<8>>
           [] f = "rank16" -> <<16>>
           [] OTHER -> <<2, 4, 8, 16, 32, 64, 128>>
RelCap == 20000

VARIABLES phase, circ, asg, asgs, circs, acts
vars == <<phase, circ, asg, asgs, circs, acts>>

\* -- pieces ---------------------------------------------------------------
RVec(s, i, n, m) == [j \in 1..n |-> R(s, 1000 + 131 * i + j, 2 * m + 1) - m]
\* sparse or dense integer matrix
RMat(s, n) == LET den == RS(s, 1, <<1, 3, 10>>) IN
  [i \in 1..n |-> [j \in 1..n |-> IF R(s, 7 + i * 67 + j, 10) < den THEN RR(s, 9000 + i * 67 + j, -2, 2) ELSE 0]]

C(dom) == {i \in 1..Len(asg.wit) : asg.wit[i].d = dom}
PubOf(dom) == {i \in 1..Len(asg.pub) : asg.pub[i].d = dom}
\* Vectors small enough to be multiplied.
Base(dom) == {i \in C(dom) : MaxAbs(asg.wit[i].v) <= 3}
BasePub(dom) == {i \in PubOf(dom) : MaxAbs(asg.pub[i].v) <= 3}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Pick(s, i, S) == RS(s, i, Sorted(S))

NoTerms == <<>>
Con(t, dom, terms, b, x, y, m, k) ==
  [t |-> t, dom |-> dom, terms |-> terms, b |-> b, x |-> x, y |-> y, m |-> m, k |-> k, f |-> 0]
\* the same constraint, multiplied by a constant of the field
Scaled(s, c) == [c EXCEPT !.f = IF R(s, 77, 2) = 0 THEN 0 ELSE RR(s, 78, 1, 8)]

Shapes == <<"flat", "tree", "mixed", "extra">>

Begin ==
  /\ phase = "begin"
  /\ \E s \in {RandomElement(Seeds)} :
       LET n  == RS(s, 1, Ranks)
           nw == IF Focus = "secretfree" THEN R(s, 2, 2) ELSE RR(s, 2, 1, 3)
           np == R(s, 3, 3)
           dom(i) == IF Focus \in {"lin", "linonly", "mix", "many"} /\ R(s, 40 + i, 4) = 0 THEN "n" ELSE "c"
       IN /\ asg' = [shape |-> RS(s, 4, Shapes),
                     pub |-> [i \in 1..np |-> [d |-> dom(50 + i), v |-> RVec(s, 100 + i, n, RS(s, 20 + i, <<0, 1, 2, 3, 3, 3>>))]],
                     wit |-> [i \in 1..nw |-> [d |-> dom(i), v |-> RVec(s, i, n, RS(s, 30 + i, <<0, 1, 2, 3, 3, 3, 3>>))]]]
          /\ circ' = [n |-> n, np |-> np, nw |-> nw, shape |-> RS(s, 4, Shapes), mats |-> <<>>, cons |-> <<>>]
          /\ phase' = "build"
  /\ UNCHANGED <<asgs, circs, acts>>

\* Random terms over the current vectors of one domain.
RTerms(s, dom, cnt) ==
  [i \in 1..cnt |->
     LET deg == IF Base(dom) = {} THEN 0 ELSE RS(s, 10 * i + 1, IF Focus = "linsum" THEN <<1, 1, 1, 2>> ELSE IF dom = "c" THEN <<0, 1, 1, 2, 2, 3>> ELSE <<0, 1, 1, 2>>)
         p   == IF BasePub(dom) = {} THEN 0 ELSE IF R(s, 10 * i + 2, 2) = 0 THEN 0 ELSE Pick(s, 10 * i + 3, BasePub(dom))
     IN [c |-> RR(s, 10 * i + 4, -3, 3), p |-> p,
         w |-> [j \in 1..deg |-> Pick(s, 10 * i + 4 + j, Base(dom))]]]

AddPub(d, v) == asg' = [asg EXCEPT !.pub = Append(@, TLCEval([d |-> d, v |-> v]))]
AddWit(d, v) == asg' = [asg EXCEPT !.wit = Append(@, TLCEval([d |-> d, v |-> v]))]
AddCon(c) == circ' = [circ EXCEPT !.cons = Append(@, c), !.np = Len(asg'.pub), !.nw = Len(asg'.wit)]
Keep == UNCHANGED <<phase, asgs, circs, acts>>

\* sum of the terms + balancing vector = 0; the balancing vector is public, or secret, or a public factor.
AddArith ==
  \E s \in {RandomElement(Seeds)} :
    LET dom == IF C("n") # {} /\ R(s, 1, 2) = 0 THEN "n" ELSE "c"
        ts == TLCEval(RTerms(s, dom, RR(s, 2, 1, 3)))
        v  == TLCEval(TermsVec(circ.n, dom, asg, ts))
        how == IF Focus = "secretfree" THEN "pub" ELSE RS(s, 3, <<"pub", "wit">>)
        sg == RS(s, 4, <<1, -1>>)
        bal == ScaleVec(-sg, v)
        t(c) == IF how = "pub" THEN [c |-> c, p |-> Len(asg.pub) + 1, w |-> <<>>]
                               ELSE [c |-> c, p |-> 0, w |-> <<Len(asg.wit) + 1>>]
        pos == R(s, 5, Len(ts) + 1)
        all == SubSeq(ts, 1, pos) \o <<t(sg)>> \o SubSeq(ts, pos + 1, Len(ts))
    IN /\ MaxAbs(v) <= RelCap
       /\ IF how = "pub" THEN AddPub(dom, bal) ELSE AddWit(dom, bal)
       /\ AddCon(Scaled(s, Con("arith", dom, all, 0, 0, 0, 0, 0)))

AddSum ==
  \E s \in {RandomElement(Seeds)} :
    LET dom == IF C("n") # {} /\ R(s, 1, 2) = 0 THEN "n" ELSE "c"
        raw == TLCEval(RTerms(s, dom, RR(s, 2, 1, 3)))
        \* half of the time balanced to the declared sum zero by a public vector carrying minus the sum in one slot
        v  == TLCEval(TermsVec(circ.n, dom, asg, raw))
        tot == SlotSum(circ.n, dom, v)
        at == RR(s, 6, 1, circ.n)
        zero == dom = "c" /\ R(s, 3, 3) = 0
        pv == [j \in 1..circ.n |-> IF j = at THEN -tot ELSE 0]
        ts == IF zero THEN Append(raw, [c |-> 1, p |-> Len(asg.pub) + 1, w |-> <<>>]) ELSE raw
    IN /\ MaxAbs(v) <= RelCap /\ Abs(tot) <= 10000000
       /\ IF zero THEN AddPub(dom, pv) ELSE asg' = asg
       /\ AddCon(Scaled(s, Con("sum", dom, ts, IF zero THEN 0 ELSE tot, 0, 0, 0, 0)))

\* wit[x] = M wit[y] with a fresh output, or with an already used map and input again
AddLin ==
  \E s \in {RandomElement(Seeds)} :
    LET src == {i \in 1..Len(asg.wit) : MaxAbs(asg.wit[i].v) <= 100}
        y == Pick(s, 2, src)
        isN == asg.wit[y].d = "n"
        kind == IF isN THEN -3 ELSE RS(s, 3, IF circ.n >= 4 THEN <<1, 1, -1, -2>> ELSE <<1, -1>>)
        reuse == kind = 1 /\ circ.mats # <<>> /\ R(s, 4, 2) = 0
        mats == IF kind # 1 \/ reuse THEN circ.mats ELSE TLCEval(Append(circ.mats, RMat(s, circ.n)))
        m == IF kind = 1 THEN (IF reuse THEN RR(s, 5, 1, Len(circ.mats)) ELSE Len(mats)) ELSE kind
        k == IF kind \in {-2, -3} THEN 2 * R(s, 6, circ.n) + 1 ELSE 0
        c == Con("lin", "c", NoTerms, 0, Len(asg.wit) + 1, y, m, k)
        out == TLCEval(Apply([circ EXCEPT !.mats = mats], c, asg.wit[y]))
    IN /\ src # {}
       /\ MaxAbs(out.v) <= RelCap
       /\ AddWit(out.d, out.v)
       /\ circ' = [circ EXCEPT !.cons = Append(@, c), !.mats = mats, !.nw = Len(asg'.wit)]

\* A vector equal to the input or the output of a linear constraint, in its place.
AddTwin ==
  \E s \in {RandomElement(Seeds)} :
    LET lins == {i \in 1..Len(circ.cons) : circ.cons[i].t = "lin"}
        new == Len(asg.wit) + 1
    IN /\ lins # {}
       /\ \E c \in {circ.cons[Pick(s, 1, lins)]} :
            IF R(s, 2, 2) = 0
            THEN AddWit(asg.wit[c.y].d, asg.wit[c.y].v) /\ AddCon([c EXCEPT !.y = new])
            ELSE AddWit(asg.wit[c.x].d, asg.wit[c.x].v) /\ AddCon([c EXCEPT !.x = new])

\* wit[y] = M wit[y]: the identity, but for some rows that also take in a slot that is zero.
AddStill ==
  \E s \in {RandomElement(Seeds)} :
    LET still == {y \in C("c") : \E j \in 1..circ.n : asg.wit[y].v[j] = 0}
    IN /\ still # {}
       /\ \E y \in {Pick(s, 3, still)} : \E j \in {Pick(s, 4, {q \in 1..circ.n : asg.wit[y].v[q] = 0})} :
            LET id == [a \in 1..circ.n |-> [b \in 1..circ.n |-> IF a = b \/ (b = j /\ R(s, 100 + a, 2) = 0) THEN 1 ELSE 0]]
            IN circ' = [circ EXCEPT !.mats = Append(@, TLCEval(id)),
                                    !.cons = Append(@, Con("lin", "c", NoTerms, 0, y, y, Len(circ.mats) + 1, 0))]
       /\ UNCHANGED asg

AddInf ==
  \E s \in {RandomElement(Seeds)} :
    LET cs == {i \in C("c") : TRUE}
        x == Pick(s, 1, cs)
        b == MaxAbs(asg.wit[x].v) + RS(s, 2, <<0, 0, 1, 2, 5>>)
    IN /\ cs # {} /\ asg' = asg /\ AddCon(Con("inf", "c", NoTerms, b, x, 0, 0, 0))

BitLen(x) == CHOOSE k \in 0..31 : (k = 0 /\ x = 0) \/ (k > 0 /\ x >= 2^(k - 1) /\ (k = 31 \/ x < 2^k))
AddTwo ==
  \E s \in {RandomElement(Seeds)} :
    LET cs == {i \in C("c") : MaxAbs(asg.wit[i].v) <= 1000}
        x == Pick(s, 1, cs)
        b == SqNorm(asg.wit[x].v) + RS(s, 2, <<0, 0, 1, 3>>)
    IN /\ cs # {} /\ BitLen(b) <= circ.n /\ asg' = asg /\ AddCon(Con("two", "c", NoTerms, b, x, 0, 0, 0))

Kinds == CASE Focus = "arith" -> {"arith"}
           [] Focus = "lin" -> {"lin", "arith"}
           [] Focus = "linonly" -> {"lin"}
           [] Focus = "sumonly" -> {"sum"}
           [] Focus = "sum" -> {"sum", "arith"}
           [] Focus = "linsum" -> {"lin", "sum"}
           [] Focus = "inf" -> {"inf", "arith"}
           [] Focus = "two" -> {"two", "sum"}
           [] Focus = "secretfree" -> {"arith", "sum"}
           [] OTHER -> {"arith", "lin", "sum", "inf", "two"}
Build ==
  /\ phase = "build" /\ Len(circ.cons) < (IF Focus = "many" THEN 20 ELSE 6)
  /\ \/ "arith" \in Kinds /\ AddArith
     \/ "sum" \in Kinds /\ AddSum
     \/ "lin" \in Kinds /\ AddLin
     \/ "lin" \in Kinds /\ AddTwin
     \/ "lin" \in Kinds /\ R(Len(circ.cons), circ.n + Len(asg.wit), 3) = 0 /\ AddStill
     \/ "inf" \in Kinds /\ AddInf
     \/ "two" \in Kinds /\ AddTwo
  /\ Keep

\* -- variants of the assignment ---------------------------------------------
Bump(a, side, i, j, d) ==
  IF side = "pub" THEN [a EXCEPT !.pub[i].v[j] = @ + d] ELSE [a EXCEPT !.wit[i].v[j] = @ + d]

\* Change one slot, or two slots by opposite amounts (so that sums of violations cancel).
Variant(s) ==
  LET np == Len(asg.pub)
      nw == Len(asg.wit)
      vecs == [i \in 1..(np + nw) |-> IF i <= np THEN <<"pub", i>> ELSE <<"wit", i - np>>]
      a == RS(s, 1, vecs)
      b == RS(s, 2, vecs)
      j == RR(s, 3, 1, circ.n)
      j2 == IF R(s, 6, 2) = 0 THEN j ELSE RR(s, 4, 1, circ.n)
      d == RS(s, 5, <<1, -1, 2, 7, -5, 100>>)
      \* results of maps that nothing is computed from: errors that meet where the slots of one are as far apart
      \* as the constraints
      ends == {x \in {circ.cons[i].x : i \in {l \in 1..Len(circ.cons) : circ.cons[l].t = "lin"}} :
                 asg.wit[x].d = "c" /\ \A i \in 1..Len(circ.cons) : circ.cons[i].t = "lin" => circ.cons[i].y # x}
      e1 == Pick(s, 9, ends)
      e2 == Pick(s, 10, ends \ {e1})
      near == 1 + (((j - 1) + (2 * circ.n) + RS(s, 8, <<-2, -1, 1, 2>>)) % circ.n)
  IN CASE np + nw = 0 -> asg
       [] Cardinality(ends) >= 2 /\ R(s, 11, 2) = 0 -> Bump(Bump(asg, "wit", e1, j, d), "wit", e2, near, -d)
       [] R(s, 7, 3) < 2 -> Bump(asg, a[1], a[2], j, d)
       [] OTHER -> Bump(Bump(asg, a[1], a[2], j, d), b[1], b[2], j2, -d)

\* Another circuit of the same kind: declared sums moved by opposite amounts, a bound lowered,
\* a coefficient or a map changed; or a changed copy of one constraint next to the original.
ChangedCircuit(s) ==
  LET k == RR(s, 1, 1, Len(circ.cons))
      k2 == RR(s, 2, 1, Len(circ.cons))
      d == RS(s, 3, <<1, -1, 3, 64>>)
      c == circ.cons[k]
      mv(cc, q, e) == [cc EXCEPT !.cons[q].b = @ + e]
  IN CASE c.t = "sum" -> IF circ.cons[k2].t = "sum" /\ k2 # k THEN mv(mv(circ, k, d), k2, -d) ELSE mv(circ, k, d)
       [] c.t = "inf" -> IF c.b > 0 THEN mv(circ, k, -1) ELSE circ
       [] c.t = "two" -> IF c.b > 0 THEN mv(circ, k, -1) ELSE circ
       [] c.t = "arith" -> [circ EXCEPT !.cons[k].terms[1].c = @ + d]
       [] c.t = "lin" -> IF c.m > 0 THEN [circ EXCEPT !.mats[c.m][RR(s, 4, 1, circ.n)][RR(s, 5, 1, circ.n)] = @ + d]
                         ELSE IF c.m \in {-2, -3} THEN [circ EXCEPT !.cons[k].k = (@ + 2 * RR(s, 6, 1, circ.n - 1)) % (2 * circ.n)]
                         ELSE circ

OtherCircuit(s) ==
  LET o == TLCEval(ChangedCircuit(s))
      new == {i \in 1..Len(circ.cons) : o.cons[i] # circ.cons[i]}
  IN IF Cardinality(new) = 1 /\ R(s, 60, 2) = 0
     THEN LET c == o.cons[CHOOSE i \in new : TRUE]
          IN [circ EXCEPT !.cons = IF R(s, 61, 2) = 0 THEN Append(@, c) ELSE <<c>> \o @]
     ELSE o

\* Not a well-formed assignment: a vector of the wrong length, a vector too few or too many, or another
\* circuit type (also one that is no pointer, a list of circuits, or no circuit at all).
Resize(v, len) == [j \in 1..len |-> IF j <= Len(v) THEN v[j] ELSE 0]
Misshape(s) ==
  LET np == Len(asg.pub)
      nw == Len(asg.wit)
      vecs == [i \in 1..(np + nw) |-> IF i <= np THEN <<"pub", i>> ELSE <<"wit", i - np>>]
      a == RS(s, 1, vecs)
      len == RS(s, 2, <<0, circ.n - 1, circ.n + 1, 2 * circ.n, (3 * circ.n) \div 2>>)
      drop(q) == SubSeq(q, 1, Len(q) - 1)
      more(q, d) == Append(q, [d |-> d, v |-> ZeroVec(circ.n)])
      otherShape == RS(s, 4, <<"flat", "tree", "mixed", "extra", "plain", "list", "list", "none">>)
      k == R(s, 5, 8)
  IN CASE k <= 2 /\ np + nw > 0 -> IF a[1] = "pub" THEN [asg EXCEPT !.pub[a[2]].v = Resize(@, len)]
                                    ELSE [asg EXCEPT !.wit[a[2]].v = Resize(@, len)]
       [] k = 3 /\ nw > 0 -> [asg EXCEPT !.wit = drop(@)]
       [] k = 4 /\ np > 0 -> [asg EXCEPT !.pub = drop(@)]
       [] k = 5 /\ np > 0 -> [asg EXCEPT !.pub = more(@, "c")]
       [] k \in {6, 7} /\ otherShape # asg.shape -> [asg EXCEPT !.shape = otherShape]
       [] OTHER -> [asg EXCEPT !.wit = more(@, "c")]

\* Other public vectors: one slot changed, by a little or by a power of two; the change made up for in another
\* vector or a neighbouring slot; two vectors swapped, a vector rotated.
PubVariant(s) ==
  LET np == Len(asg.pub)
      a == RR(s, 1, 1, np)
      b == RR(s, 2, 1, np)
      j == RR(s, 3, 1, circ.n)
      next == 1 + (j % circ.n)
      d == RS(s, 4, <<1, -1, 2, 64>>)
      k == R(s, 5, 9)
      v == asg.pub[a].v
  IN IF np = 0 THEN asg
     ELSE CASE k <= 2 -> Bump(asg, "pub", a, j, d)
            [] k = 3 -> Bump(Bump(asg, "pub", a, j, d), "pub", b, j, -d)
            [] k \in {4, 5} -> Bump(Bump(asg, "pub", a, j, d), "pub", a, next, -d * RS(s, 6, <<1, 1, 2, 3, 5>>))
            [] k = 6 -> [asg EXCEPT !.pub[a] = @ @@ [e |-> RS(s, 7, <<8, 16, 31, 32, 48, 63, 64, 65, 100>>), j |-> j]]
            [] k = 7 -> [asg EXCEPT !.pub[a].v = asg.pub[b].v, !.pub[b].v = v]
            [] OTHER -> [asg EXCEPT !.pub[a].v = [i \in 1..circ.n |-> v[1 + (i % circ.n)]]]

NVar == 4
Vary ==
  /\ phase = "build" /\ Len(circ.cons) >= (IF Focus = "many" THEN 14 ELSE 1)
  /\ Focus = "linsum" => {"lin", "sum"} \subseteq {circ.cons[i].t : i \in 1..Len(circ.cons)}
  /\ \E s \in {RandomElement(Seeds)} :
       LET oc == OtherCircuit(s)
           var(q) == CASE Mode = "malformed" -> Misshape(q)
                       [] Mode = "binding" -> PubVariant(q)
                       [] Mode = "history" -> IF R(q, 50, 3) = 0 THEN Misshape(q) ELSE Variant(q)
                       [] OTHER -> Variant(q)
       IN /\ asgs' = <<asg>> \o [i \in 1..NVar |-> var(PM(s) + i)]
          /\ circs' = IF oc = circ THEN <<circ>> ELSE <<circ, oc>>
  /\ phase' = "acts"
  /\ UNCHANGED <<circ, asg, acts>>

Act(op, c, crs, pair, a, pf, base) ==
  [op |-> op, c |-> c, crs |-> crs, pair |-> pair, asg |-> a, pf |-> pf, base |-> base]
ACompile(c, crs) == Act("compile", c, crs, 0, 0, 0, FALSE)
AProve(p, a) == Act("prove", 0, "", p, a, 0, FALSE)
ATamper(f, k) == Act("tamper", k, "", 0, 0, f, FALSE)
AVerify(p, f, a) == Act("verify", 0, "", p, a, f, FALSE)

Odd(i) == (i % 2) = 1
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* Prove and verify every assignment with its own public vectors; then the same for the other circuit.
Straight ==
  LET each(p, base) == [i \in 1..(2 * Len(asgs)) |->
         IF Odd(i) THEN AProve(p, (i + 1) \div 2) ELSE AVerify(p, base + (i \div 2), i \div 2)]
  IN <<ACompile(1, "crs0")>> \o each(1, 0)
     \o (IF Len(circs) = 2 THEN <<ACompile(2, "crs0"), AProve(2, 1), AVerify(2, Len(asgs) + 1, 1), AVerify(2, 1, 1),
                                  AVerify(1, Len(asgs) + 1, 1)>> ELSE <<>>)

\* One satisfied assignment only, on a fresh pair.
Single == <<ACompile(1, "crs0"), AProve(1, 1), AVerify(1, 1, 1)>>

\* Every assignment on its own pair first (the baseline), then one pair used for a random history.
History(s) ==
  LET k == Len(asgs)
      base == Flat([i \in 1..k |-> <<ACompile(1, "crs0"), AProve(i, i), AVerify(i, i, i)>>])
      sh == k + 1   \* the shared pair
      \* proofs k+1 .. k+len: one per step of the history
      step(i) == LET q == PM(s + 97 * i)
                     a == RR(q, 1, 1, k)
                     own == k + i          \* the proof this step makes
                     old == RR(q, 2, k + 1, k + i)
                     tam(f) == <<ATamper(f, R(q, 3, 1000))>>
                 IN <<AProve(sh, a), AVerify(sh, own, a)>>
                    \o (IF R(q, 4, 2) = 0 THEN <<AVerify(sh, own, a)>> ELSE <<>>)
                    \o (IF R(q, 5, 2) = 0 THEN <<AVerify(sh, old, RR(q, 6, 1, k))>> ELSE <<>>)
                    \o (IF R(q, 7, 3) = 0 THEN <<AVerify(sh, RR(q, 8, 1, k), 1)>> ELSE <<>>)
      steps == Flat([i \in 1..6 |-> step(i)])
      \* at the end: tampered copies, and valid proofs again
      n == k + 6
      tail == <<ATamper(1, R(s, 2, 1000)), AVerify(sh, n + 1, 1), AVerify(sh, 1, 1), AProve(sh, 1), AVerify(sh, n + 2, 1),
                ATamper(n + 2, R(s, 3, 1000)), AVerify(sh, n + 3, 1), AVerify(sh, n + 2, 1), AVerify(1, n + 2, 1)>>
  IN [i \in 1..Len(base) |-> [base[i] EXCEPT !.base = TRUE]] \o <<ACompile(1, "crs0")>> \o steps \o tail

\* Well-formed, then every malformed assignment, then well-formed again.
Malformed(s) ==
  LET k == Len(asgs)
  IN <<ACompile(1, "crs0"), AProve(1, 1), AVerify(1, 1, 1)>>
     \o Flat([i \in 1..(k - 1) |-> <<AProve(1, i + 1), AVerify(1, 1, i + 1)>>])
     \o <<AProve(1, 1), AVerify(1, k + 1, 1), AVerify(1, 1, 1)>>

\* The same proofs against other public vectors, another CRS and another circuit.
Binding(s) ==
  LET k == Len(asgs)
      other == RS(s, 1, <<"crs1", "crs00", "", "Crs0", "crs">>)
  IN <<ACompile(1, "crs0"), ACompile(1, other), AProve(1, 1), AProve(2, 1), AVerify(1, 1, 1), AVerify(2, 2, 1),
       AVerify(2, 1, 1), AVerify(1, 2, 1)>>
     \o [i \in 1..(k - 1) |-> AVerify(1, 1, i + 1)]
     \o (IF Len(circs) = 2 THEN <<ACompile(2, "crs0"), AProve(3, 1), AVerify(3, 3, 1), AVerify(3, 1, 1),
                                  AVerify(1, 3, 1)>> ELSE <<>>)

\* Two pairs of one circuit; acts 5-8 prove with the first, 9-12 verify with the first, 13-14 prove with the second:
\* three processes at the same time.
Together ==
  <<ACompile(1, "crs0"), ACompile(1, "crs0"), AProve(1, 1), AProve(1, 2),
    AProve(1, 1), AProve(1, 3), AProve(1, 4), AProve(1, 1),
    AVerify(1, 1, 1), AVerify(1, 2, 2), AVerify(1, 1, 5), AVerify(1, 1, 1),
    AProve(2, 1), AProve(2, 5),
    AVerify(1, 3, 1), AVerify(1, 4, 3), AVerify(1, 5, 4), AVerify(1, 6, 1), AVerify(2, 7, 1), AVerify(2, 8, 5), AVerify(1, 7, 1),
    AVerify(1, 1, 1), AProve(1, 1), AVerify(1, 9, 1)>>

Acts(s) == CASE Mode = "history" -> History(s)
          [] Mode = "malformed" -> Malformed(s)
          [] Mode = "binding" -> Binding(s)
          [] Mode = "single" -> Single
          [] Mode = "together" -> Together
          [] OTHER -> Straight

Fields == CASE Field = "all" -> <<"zp127", "zp127", "zp110", "zp220", "zp240">>
            [] Field = "every" -> <<"zp127", "zp110", "zp220", "zp240", "zp440", "zp880">>
            [] OTHER -> <<Field>>

Finish ==
  /\ phase = "acts"
  /\ \E s \in {RandomElement(Seeds)} :
       /\ acts' = Acts(s)
       /\ PrintT(ToJson([field |-> RS(s, 1, Fields), circs |-> circs, asgs |-> asgs, acts |-> acts']))
  /\ phase' = "done"
  /\ UNCHANGED <<circ, asg, asgs, circs>>

Init == phase = "begin" /\ circ = <<>> /\ asg = <<>> /\ asgs = <<>> /\ circs = <<>> /\ acts = <<>>
Next == Begin \/ Build \/ Vary \/ Finish
Spec == Init /\ [][Next]_vars

\* The builder's promise: what it builds is satisfied, so completeness is exercised in every scenario.
Balanced == phase \in {"build", "acts", "done"} => (Sat(circ, asg) /\ WellFormed(circ, asg))
===========================================================================
