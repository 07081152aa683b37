------------------------------ MODULE CheatGen ------------------------------
(* Deceits of a prover written from the protocol, for every false statement *)
(* among the given circuits and assignments; and lies told to the library's *)
(* own prover: digits, projections, mask sums.                              *)
EXTENDS Cheat, Relation, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Kind == IOEnv.KIND                          \* deceit, inf, two, approx, mask
Count == atoi(IOEnv.COUNT)
Given == IF Kind = "deceit" THEN ndJsonDeserialize(IOEnv.GIVEN) ELSE <<>>    \* id, circ, asgs

At(t, i) == Mix(1 + (((Seed0 * 6151) + (t * 30011) + (i * 5003)) % 2000000000))

False(t, a) == {Given[t].circ.cons[i].t : i \in {j \in 1..Len(Given[t].circ.cons) : Judge(Given[t].circ, Given[t].asgs[a], Given[t].circ.cons[j]) = "unsat"}}
Applies(k, w) == w = "arith" => (k.place = "none" \/ (k.place = "point" /\ k.part = "quo"))
Out(t) ==
  [t |-> Given[t].id,
   deceit |-> SetToSeq(UNION {{[a |-> a, w |-> y[2], place |-> y[1].place, part |-> y[1].part, keep |-> y[1].keep] :
                                 y \in {x \in Deceits \X (False(t, a) \cap {"arith", "lin", "sum"}) : Applies(x[1], x[2])}}
                              : a \in 1..Len(Given[t].asgs)})]

(* ---- lies --------------------------------------------------------------- *)
Vec(v) == [d |-> "c", v |-> v]
NoCon == [t |-> "arith", dom |-> "c", terms |-> <<>>, b |-> 0, x |-> 0, y |-> 0, m |-> 0, k |-> 0]
NormCon(t, x, b) == [NoCon EXCEPT !.t = t, !.x = x, !.b = b]
Circuit(n, nw, mats, cons) == [n |-> n, np |-> 0, nw |-> nw, shape |-> "flat", mats |-> mats, cons |-> cons]
Lie0(a, kind) == [a |-> a, kind |-> kind, vals |-> <<>>, digs |-> <<>>, rest |-> <<>>, mark |-> 0, off |-> 0]
Flat(wit) == [shape |-> "flat", pub |-> <<>>, wit |-> wit]
One(n, at, x) == [i \in 1..n |-> IF i = at THEN x ELSE 0]
Ones(k, j, d, s) == [i \in 1..k |-> IF i = j THEN d ELSE s]
Dot(b, d) == FoldLeft(LAMBDA s, i : s + (b[i] * d[i]), 0, [i \in 1..Len(b) |-> i])

Bounds == <<2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 100, 127, 255, 1000, 65535, 65537, 1000003>>

\* Digit strings that do not prove what they should: one digit out of range at every place, or all in range
\* and the value one above the bound.
BadDigits(q, b, ternary) ==
  LET k == Len(b)
      neg == ternary /\ R(q, 1, 2) = 0
      s == IF neg THEN -1 ELSE 1
  IN {[kind |-> "range", x |-> Dot(b, Ones(k, j, d * s, s)), d |-> Ones(k, j, d * s, s)] : j \in 1..k, d \in {2, 3 + R(q, 2, 5)}}
     \cup {[kind |-> "alone", x |-> s * (Total(b) + 1 + R(q, 3, 50)), d |-> Ones(k, k, s * (Total(b) + 1 + R(q, 3, 50)), 0)]}
     \cup {[kind |-> "recompose", x |-> s * (Total(b) + e), d |-> [i \in 1..k |-> s]] : e \in {1, 2, 1 + R(q, 4, 1000)}}
     \cup {[kind |-> "recompose", x |-> s * (Total(b) + 1), d |-> Ones(k, j, 0, s)] : j \in {1 + R(q, 5, k)}}

\* squares adding up to x, the largest first
RECURSIVE ISqrt(_, _, _)
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrt(x, m, hi) ELSE ISqrt(x, lo, m)
RECURSIVE Squares(_)
Squares(x) == IF x = 0 THEN <<>> ELSE LET r == ISqrt(x, 0, 46341) IN <<r>> \o Squares(x - (r * r))

InfCase(t) ==
  LET q == At(t, 1)
      n == RS(q, 1, <<2, 4, 8, 16>>)
      b1 == RS(q, 2, Bounds)
      b2 == RS(q, 3, Bounds)
      two == R(q, 4, 2) = 0
      which == IF two THEN 1 + R(q, 5, 2) ELSE 1
      b == IF which = 1 THEN b1 ELSE b2
      bad == SetToSeq(BadDigits(q, Base(b), TRUE))
      other == IF which = 1 THEN 2 ELSE 1
      wit(x) == [i \in 1..(IF two THEN 2 ELSE 1) |-> IF i = which THEN Vec(One(n, RR(q, 6, 1, n), x)) ELSE Vec(One(n, 1, R(q, 7, 2)))]
  IN [circ |-> Circuit(n, IF two THEN 2 ELSE 1, <<>>, IF two THEN <<NormCon("inf", 1, b1), NormCon("inf", 2, b2)>> ELSE <<NormCon("inf", 1, b1)>>),
      asgs |-> [i \in 1..Len(bad) |-> Flat(wit(bad[i].x))],
      lies |-> [i \in 1..Len(bad) |-> [Lie0(i, bad[i].kind) EXCEPT !.vals = <<bad[i].x>>, !.digs = <<bad[i].d>>]]]

TwoCase(t) ==
  LET q == At(t, 2)
      n == RS(q, 1, <<16, 32>>)
      b == RS(q, 2, SubSeq(Bounds, 1, 17))
      bad == SetToSeq({x \in BadDigits(q, Base(b), FALSE) : x.x < 1000000})
      put(sq) == [i \in 1..n |-> IF i > n - Len(sq) THEN sq[n + 1 - i] ELSE 0]
      sq(i) == Squares(bad[i].x)
  IN [circ |-> Circuit(n, 1, <<>>, <<NormCon("two", 1, b)>>),
      asgs |-> [i \in 1..Len(bad) |-> Flat(<<Vec(put(sq(i)))>>)],
      lies |-> [i \in 1..Len(bad) |-> [Lie0(i, bad[i].kind) EXCEPT !.vals = <<sq(i)[1]>>, !.digs = <<bad[i].d>>]]]

ApproxCase(t) ==
  LET q == At(t, 3)
      n == 2048
      b == 1 + R(q, 1, 15)
      x == RS(q, 2, <<1, -1>>) * RR(q, 3, 1000000, 1000000000)
      slack == n * b
  IN [circ |-> Circuit(n, 1, <<>>, <<NormCon("approx", 1, b)>>),
      asgs |-> <<Flat(<<Vec(One(n, RR(q, 4, 1, n), x))>>)>>,
      lies |-> << [Lie0(1, "range") EXCEPT !.rest = <<Base(slack)[1], BitLen(slack)>>],
                  [Lie0(1, "project") EXCEPT !.mark = x] >>]

\* A statement that is off in a single slot, and mask sums moved by what it is off.
MaskCase(t) ==
  LET q == At(t, 4)
      n == RS(q, 1, <<2, 4, 8, 16>>)
      e == RS(q, 2, <<1, -1, 3, 100>>)
      lin == R(q, 3, 2) = 0
      nc == 1 + R(q, 4, 2)
      v == [i \in 1..n |-> R(q, 100 + i, 7) - 3]
      mat == [i \in 1..n |-> [j \in 1..n |-> R(q, 200 + (i * 40) + j, 3) - 1]]
      wrong(i) == i = nc                       \* the last constraint is false
      at == RS(q, 5, <<1, 1, n>>)
      out(i) == [j \in 1..n |-> MatVec(mat, v)[j] + (IF wrong(i) /\ j = at THEN e ELSE 0)]
      lc(i) == [NoCon EXCEPT !.t = "lin", !.x = i + 1, !.y = 1, !.m = 1]
      sc(i) == [NoCon EXCEPT !.t = "sum", !.terms = <<[c |-> i, p |-> 0, w |-> <<1>>]>>, !.b = (i * Total(v)) + (IF wrong(i) THEN e ELSE 0)]
      offs == <<e, -e, e * n, -(e * n)>>
  IN [circ |-> IF lin THEN Circuit(n, nc + 1, <<mat>>, [i \in 1..nc |-> lc(i)]) ELSE Circuit(n, 1, <<>>, [i \in 1..nc |-> sc(i)]),
      asgs |-> <<Flat(IF lin THEN <<Vec(v)>> \o [i \in 1..nc |-> Vec(out(i))] ELSE <<Vec(v)>>)>>,
      lies |-> [i \in 1..4 |-> [Lie0(1, "mask") EXCEPT !.off = offs[i]]]]

Case(t) == CASE Kind = "inf" -> InfCase(t) [] Kind = "two" -> TwoCase(t) [] Kind = "approx" -> ApproxCase(t) [] Kind = "mask" -> MaskCase(t)

\* Every lie is about a false statement.
False0(c) == \A i \in 1..Len(c.asgs) : Verdict(c.circ, c.asgs[i]) = "unsat"

VARIABLE t
Init == /\ t \in 1..(IF Kind = "deceit" THEN Len(Given) ELSE Count)
        /\ IF Kind = "deceit" THEN PrintT(ToJson(Out(t)))
           ELSE LET c == Case(t) IN Assert(False0(c), c) /\ PrintT(ToJson(c))
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
=============================================================================
