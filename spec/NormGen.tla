------------------------------ MODULE NormGen ------------------------------
(* Exact norm constraints and sums at and around every small bound, around powers of *)
(* two up to the size of the field, and at half the field.  One initial     *)
(* state per bound; each prints one session.                                *)
EXTENDS Relation, Prng, Json, IOUtils

Kind  == IOEnv.KIND       \* "inf", "two" or "sum"
Seed0 == atoi(IOEnv.SEED)
Small == atoi(IOEnv.SMALL)    \* every bound 0..Small
Step  == atoi(IOEnv.STEP)     \* every Step-th power of two
Field == IOEnv.FIELD
Lean  == IOEnv.LEAN = "yes"   \* few large bounds only

Fields == CASE Field = "every" -> <<"zp127", "zp110", "zp220", "zp240", "zp440", "zp880">>
            [] OTHER -> <<Field>>
\* Exponents e such that 2^e (inf) or 2^e as a sum of squares (two) is well below a quarter of the field.
MaxExp(f) == CASE f = "zp110" -> 104 [] f = "zp127" -> 120 [] f = "zp220" -> 212 [] f = "zp240" -> 230
               [] f = "zp440" -> 430 [] OTHER -> 860

VARIABLES f, b
vars == <<f, b>>

\* In a lean run: three exponents up to 24, one up to 100, and one bound next to half the field.
LeanExps(ff) == {7 + R(Seed0, 1, 6), 13 + R(Seed0, 2, 6), 19 + R(Seed0, 3, 6), 25 + R(Seed0, 4, 75)} \cap 7..MaxExp(ff)
\* Sizes at which machine words end.
Words == {31, 32, 63, 64}
WordOff(e) == CASE e = 63 -> {R(Seed0, 73, 2)} [] e = 64 -> {-1} [] OTHER -> {RR(Seed0, 70 + e, -1, 1)}
Exps(ff) == IF Lean THEN LeanExps(ff) ELSE {x \in 7..MaxExp(ff) : (x % Step) = (Seed0 % Step)}
Bounds(ff) ==
  {Num(i) : i \in 0..Small}
  \cup {Pow(1, e, d) : e \in Exps(ff), d \in {-1, 0, 1}}
  \cup UNION {{Pow(1, e, d) : d \in WordOff(e)} : e \in Words}
  \cup (IF Kind = "sum" THEN {Pow(-1, e, RR(Seed0, 170 + e, -1, 1)) : e \in Words} ELSE {})
  \cup (IF Kind = "inf" THEN {Half(1, d) : d \in (IF Lean THEN {-R(Seed0, 5, 3)} ELSE {-2, -1, 0})} ELSE {})

S(i) == PM(1 + Seed0 * 31 + i * 7 + (IF b.s = 0 THEN b.a * 1013 ELSE (b.e + 3) * 7919 + b.a * 17))

\* x + d, for d small
Plus1(x, d) == [x EXCEPT !.a = @ + d]
Neg(x) == [s |-> -x.s, e |-> x.e, a |-> -x.a]
Rank == IF Kind \in {"inf", "sum"} THEN RS(S(1), 1, <<4, 8, 8, 16>>)
        ELSE IF b.s = 0 THEN RS(S(1), 1, <<8, 16, 16>>)
        ELSE LET e == b.e + 2 IN IF e <= 16 THEN 16 ELSE IF e <= 32 THEN 32 ELSE IF e <= 64 THEN 64 ELSE IF e <= 128 THEN 128
             ELSE IF e <= 256 THEN 256 ELSE IF e <= 512 THEN 512 ELSE 1024

\* -- infinity norm ----------------------------------------------------------
\* all entries at the two ends of the range, except slot j
Ends(n, s) == [i \in 1..n |-> IF R(s, i, 3) = 0 THEN b ELSE IF R(s, i, 3) = 1 THEN Neg(b) ELSE Num(0)]
With(v, j, x) == [v EXCEPT ![j] = x]
InfVecs ==
  LET n == Rank
      at(k) == RR(S(k), 3, 1, n)
      put(k, x) == With(Ends(n, S(k)), at(k), x)
      half == b.s # 0 /\ b.e = -1
  IN <<put(2, b), put(3, Neg(b)), put(4, Plus1(b, 1)), put(5, Neg(Plus1(b, 1)))>>
     \o (IF half \/ b.e > 24 THEN <<>> ELSE <<put(6, Plus1(b, 2)), put(7, Half(1, 0)), put(8, Half(-1, 0)), put(9, Imag(1, 0)),
                                  put(10, [i \in 1..n |-> Num(0)][1])>>)

\* -- squared two-norm --------------------------------------------------------
RECURSIVE Isqrt(_, _)
Isqrt(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Isqrt(x, r + 1)
\* x as a sum of squares, largest first
RECURSIVE Greedy(_)
Greedy(x) == IF x = 0 THEN <<>> ELSE LET r == Isqrt(x, 0) IN <<r>> \o Greedy(x - r * r)
Place(n, q, s) ==  \* the entries q with random signs, from a random slot on, zero elsewhere
  LET o == R(s, 1, n) IN
  [i \in 1..n |-> LET k == ((i - 1 + o) % n) + 1 IN
     IF k > Len(q) THEN Num(0) ELSE IF R(s, 10 + i, 2) = 0 THEN q[k] ELSE Neg(q[k])]
Nums(q) == [i \in 1..Len(q) |-> Num(q[i])]
\* entries whose squares add up to b + d, or <<>> when b + d is not a sum we can write down
Squares(d) ==
  IF b.s = 0 THEN Nums(Greedy(b.a + d))
  ELSE LET k == b.e \div 2
           big == IF b.e % 2 = 0 THEN <<Pow(1, k, 0)>> ELSE <<Pow(1, k, 0), Pow(1, k, 0)>>
       IN big \o Nums(Greedy(b.a + d))
CanWrite(d) == b.a + d >= 0
TwoVecs ==
  LET n == Rank
      put(k, d) == IF CanWrite(d) THEN <<Place(n, Squares(d), S(k))>> ELSE <<>>
      \* squares adding up to -1 + 1, to -1, and to -2 + 2 a^2 over the field
      q(x) == Place(n, x, S(11))
  IN put(2, 0) \o put(3, 1) \o put(4, 2) \o put(5, -1) \o put(6, 4)
     \o <<q(<<Num(0)>>), q(<<Imag(1, 0), Num(1)>>), q(<<Imag(1, 0)>>)>>
     \o (IF b.s = 0 /\ b.a % 2 = 0 THEN <<q(<<Imag(1, 2), Imag(-1, 2)>>), q(<<Imag(1, 1)>>)>> ELSE <<>>)

\* -- sums ------------------------------------------------------------------
\* small entries, and the rest in one or two slots
SumVecs ==
  LET n == Rank
      put(k, d, twice) ==
        LET at == RR(S(k), 3, 1, n)
            at2 == (at % n) + 1
            base == [i \in 1..n |-> IF i = at \/ (twice /\ i = at2) THEN 0 ELSE RR(S(k), 10 + i, -5, 5)]
            rest == b.a + d - SSum(base)
            half == [b EXCEPT !.e = @ - 1, !.a = 0]
        IN [i \in 1..n |-> IF i = at THEN (IF twice THEN Plus1(half, rest) ELSE [b EXCEPT !.a = rest])
                            ELSE IF twice /\ i = at2 THEN half ELSE Num(base[i])]
      flip(v) == [i \in 1..n |-> Neg(v[i])]
      off(v) == [i \in 1..n |-> IF v[i].s = 0 THEN v[i] ELSE [v[i] EXCEPT !.e = @ + 1]]
  IN <<put(2, 0, FALSE), put(3, 1, FALSE), put(4, -1, FALSE)>>
     \o (IF b.s = 0 THEN <<>> ELSE <<put(5, 0, TRUE), flip(put(6, 0, FALSE)), off(put(7, 0, FALSE)), [i \in 1..n |-> Num(0)]>>)

Vecs == CASE Kind = "inf" -> InfVecs [] Kind = "sum" -> SumVecs [] OTHER -> TwoVecs

Con(t, bb, x) == [t |-> t, dom |-> "s", terms |-> IF t = "sum" THEN <<[c |-> 1, p |-> 0, w |-> <<x>>]>> ELSE <<>>,
                  b |-> bb, x |-> x, y |-> 0, m |-> 0, k |-> 0]

\* Besides the constraint under test: nothing, a wider bound on the same vector before or after it, a second vector
\* at its own bound, or the same bound again.
Mode == IF Kind = "sum" THEN RS(S(20), 1, <<2, 3, 4, 5>>) ELSE IF b.s # 0 /\ b.e \in Words THEN RS(S(20), 1, <<0, 3, 4>>) ELSE R(S(20), 1, 6)
Other == IF Mode = 5 THEN Num(3) ELSE Num(6)
SecondBound == CASE Kind = "inf" -> Num(2) [] Kind = "sum" -> Num(7) [] OTHER -> Num(5)
SecondVec(n, good) ==
  IF Kind = "inf" THEN [i \in 1..n |-> IF i = 1 /\ ~good THEN Num(3) ELSE Num(RR(S(21), i, -2, 2))]
  ELSE IF Kind = "sum" THEN [i \in 1..n |-> Num(IF i = 1 THEN 9 ELSE IF i = 2 THEN -2 ELSE IF i = 3 /\ ~good THEN 1 ELSE 0)]
  ELSE [i \in 1..n |-> IF i = 2 THEN Num(2) ELSE IF i = 3 THEN Num(IF good THEN 1 ELSE 2) ELSE Num(0)]
Constraints ==
  LET main == Con(Kind, b, 1)
      wide == Con(Kind, IF b.s # 0 /\ b.e = -1 THEN b ELSE Plus1(b, 1), 1)
      snd == Con(Kind, SecondBound, 2)
  IN CASE Kind = "sum" -> IF Mode \in {2, 3} THEN (IF Mode = 2 THEN <<snd, main>> ELSE <<main, snd>>) ELSE <<main>>
       [] Mode = 0 -> <<main, wide>> [] Mode = 1 -> <<wide, main>> [] Mode = 2 -> <<snd, main>>
       [] Mode = 3 -> <<main, snd>> [] OTHER -> <<main>>
Two == Mode \in {2, 3}

V(v) == [d |-> "s", v |-> v]
ShapeOf == RS(S(22), 1, <<"flat", "tree", "mixed", "extra">>)
Asgs ==
  LET n == Rank
      one(v, good) == [shape |-> ShapeOf, pub |-> <<>>, wit |-> IF Two THEN <<V(v), V(SecondVec(n, good))>> ELSE <<V(v)>>]
  IN [i \in 1..Len(Vecs) |-> one(Vecs[i], TRUE)] \o (IF Two THEN <<one(Vecs[1], FALSE)>> ELSE <<>>)

Act(op, c, crs, pair, a, pf) == [op |-> op, c |-> c, crs |-> crs, pair |-> pair, asg |-> a, pf |-> pf, base |-> FALSE]
Acts == <<Act("compile", 1, "crs0", 0, 0, 0)>>
        \o [i \in 1..(2 * Len(Asgs)) |-> IF i % 2 = 1 THEN Act("prove", 0, "", 1, (i + 1) \div 2, 0)
                                         ELSE Act("verify", 0, "", 1, i \div 2, i \div 2)]
Scenario == [field |-> f, circs |-> <<[n |-> Rank, np |-> 0, nw |-> IF Two THEN 2 ELSE 1, shape |-> ShapeOf,
                                       mats |-> <<>>, cons |-> Constraints]>>, asgs |-> Asgs, acts |-> Acts]

Init == /\ f \in (IF Lean /\ Len(Fields) > 1 THEN {RS(Seed0, 6, Fields)} ELSE {Fields[i] : i \in 1..Len(Fields)})
        /\ b \in Bounds(f)
        /\ PrintT(ToJson(Scenario))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* The vectors at the bound satisfy it, those just above do not.
Sanity ==
  LET c == Scenario.circs[1] IN
  /\ Kind = "sum" => Judge(c, Asgs[1], Con("sum", b, 1)) = "sat" /\ Judge(c, Asgs[2], Con("sum", b, 1)) = "unsat"
  /\ Kind = "inf" =>
                  /\ Judge(c, Asgs[1], Con("inf", b, 1)) = "sat" /\ Judge(c, Asgs[2], Con("inf", b, 1)) = "sat"
                  /\ (~(b.s # 0 /\ b.e = -1 /\ b.a = 0) => Judge(c, Asgs[3], Con("inf", b, 1)) = "unsat")
===========================================================================
