----------------------------- MODULE ApproxGen -----------------------------
(* Approximate infinity-norm constraints, at ranks that hold the digits of  *)
(* the 128 projections, alone and among other constraints.  One initial     *)
(* state per session.                                                       *)
EXTENDS Relation, Prng, Json, IOUtils

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Fields == CASE IOEnv.FIELD = "every" -> <<"zp127", "zp110", "zp220", "zp240">> [] OTHER -> <<IOEnv.FIELD>>
Big == IOEnv.BIG = "yes"

VARIABLES i
vars == <<i>>

S == PM(1 + (((Seed0 * 7001) + (i * 131)) % 2000000))
N == IF i % 4 = 0 THEN RS(S, 1, <<4, 16, 64, 256>>)            \* bound zero needs no projection
     ELSE IF Big /\ i % 4 = 1 THEN RS(S, 1, <<4096, 8192>>) ELSE 2048
B1 == IF i % 4 = 0 THEN 0 ELSE IF N = 2048 THEN RS(S, 2, <<1, 2, 3, 7, 8, 16, 30, 31>>)
      ELSE RS(S, 2, <<1, 33, 1000, 4095, 65536>>)
B2 == IF i % 4 = 0 THEN 0 ELSE RS(S, 3, <<1, 5, 12, 31>>)
\* 0: alone, 1: a second vector, 2: twice on one vector, 3: with arithmetic, 4: with an exact norm and a sum, 5: with the NTT
Mode == R(S, 4, 6)
NW == CASE Mode = 1 -> 2 [] Mode = 3 -> 2 [] Mode = 5 -> 2 [] OTHER -> 1

Con(t, dom, terms, b, x, y, m, k) == [t |-> t, dom |-> dom, terms |-> terms, b |-> b, x |-> x, y |-> y, m |-> m, k |-> k]
T(c, p, w) == [c |-> c, p |-> p, w |-> w]
Main == Con("approx", "c", <<>>, B1, 1, 0, 0, 0)
Cs == CASE Mode = 1 -> <<Main, Con("approx", "c", <<>>, B2, 2, 0, 0, 0)>>
        [] Mode = 2 -> <<Con("approx", "c", <<>>, B1 + (IF B1 = 0 THEN 0 ELSE IF B1 < 31 THEN 1 ELSE 0), 1, 0, 0, 0), Main>>
        [] Mode = 3 -> <<Con("arith", "c", <<T(1, 0, <<1>>), T(1, 0, <<2>>), T(-1, 1, <<>>)>>, 0, 0, 0, 0, 0), Main>>
        [] Mode = 4 -> <<Main, Con("inf", "c", <<>>, B1, 1, 0, 0, 0)>>
        [] Mode = 5 -> <<Con("lin", "c", <<>>, 0, 2, 1, -1, 0), Main>>
        [] OTHER -> <<Main>>

Lim == 4 * N * B1
Ext(b, q) == [j \in 1..N |-> LET r == R(q, j, 5) IN IF r = 0 THEN b ELSE IF r = 1 THEN -b ELSE IF b = 0 THEN 0 ELSE RR(q, N + j, -b, b)]
With(v, j, x) == [v EXCEPT ![j] = x]
At(k) == RS(PM((S \div 2) + k), 5, <<1, N, 1 + R(S, 6 + k, N), N \div 2, N - 1>>)
Vecs == <<
  Ext(B1, S),
  [j \in 1..N |-> IF j % 2 = 0 THEN B1 ELSE -B1],
  ConstVec(N, -B1),
  With(Ext(B1, PM(S)), At(1), Lim + 1),
  With(Ext(B1, PM(S)), At(2), -(Lim + 1)),
  With(ZeroVec(N), At(3), Lim + 1 + R(S, 9, 1000)),
  With(With(ZeroVec(N), At(4), Lim + 1), IF At(4) = 1 THEN 2 ELSE 1, -(Lim + 1)),
  [j \in 1..N |-> IF j % 2 = 0 THEN Lim + 1 ELSE -(Lim + 1)],
  With(Ext(B1, PM(S)), At(5), 1000000000) >>

Asg(v, w2, pv) == [shape |-> "flat", pub |-> IF Mode = 3 THEN <<[d |-> "c", v |-> pv]>> ELSE <<>>,
                   wit |-> IF NW = 2 THEN <<[d |-> "c", v |-> v], w2>> ELSE <<[d |-> "c", v |-> v]>>]
RVec3 == [j \in 1..N |-> RR(S, 5000 + j, -3, 3)]
W2 == CASE Mode = 1 -> [d |-> "c", v |-> Ext(B2, PM((S \div 2) + 1))] [] OTHER -> [d |-> "c", v |-> RVec3]
Second(v) == IF Mode = 5 THEN [d |-> "n", v |-> v] ELSE W2
Good(v) == Asg(v, Second(v), IF Mode = 3 THEN AddVec(v, W2.v) ELSE <<>>)
\* the approximate constraint holds but another one does not
BadOther == CASE Mode = 1 -> <<Asg(Vecs[1], [d |-> "c", v |-> With(W2.v, At(6), 4 * N * B2 + 1)], <<>>)>>
              [] Mode = 3 -> <<Asg(Vecs[1], W2, With(AddVec(Vecs[1], W2.v), At(6), 77))>>
              [] Mode = 4 /\ B1 > 0 -> <<Asg(With(Vecs[1], At(6), B1 + 1), W2, <<>>)>>
              [] Mode = 5 -> <<Asg(Vecs[1], [d |-> "n", v |-> With(Vecs[1], At(6), 88)], <<>>)>>
              [] OTHER -> <<>>
Few == N > 2048
Asgs == (IF Few THEN <<Good(Vecs[1]), Good(Vecs[3]), Good(Vecs[4 + R(S, 77, 2)])>>
         ELSE <<Good(Vecs[1]), Good(Vecs[2 + R(S, 70, 2)]), Good(Vecs[4 + R(S, 71, 2)]), Good(Vecs[6 + R(S, 72, 4)]),
                Good(Vecs[4 + R(S, 73, 6)])>>) \o BadOther

Act(op, c, crs, pair, a, pf) == [op |-> op, c |-> c, crs |-> crs, pair |-> pair, asg |-> a, pf |-> pf, base |-> FALSE]
Acts == LET k == Len(Asgs) IN
        <<Act("compile", 1, "crs0", 0, 0, 0)>>
        \o [j \in 1..(2 * k) |-> IF j % 2 = 1 THEN Act("prove", 0, "", 1, (j + 1) \div 2, 0)
                                       ELSE Act("verify", 0, "", 1, j \div 2, j \div 2)]
        \o <<Act("verify", 0, "", 1, 1, 1)>>
\* Acts 3-4 prove while acts 5-10 verify.
Together ==
  LET pr(a) == Act("prove", 0, "", 1, a, 0)
      vf(f, a) == Act("verify", 0, "", 1, a, f)
  IN <<Act("compile", 1, "crs0", 0, 0, 0), pr(1), pr(1), pr(2), vf(1, 1), vf(1, 1), vf(1, 1), vf(1, 1), vf(1, 1), vf(1, 1),
       vf(2, 1), vf(3, 2), vf(1, 1)>>
Scenario == [field |-> RS(S, 8, Fields),
             circs |-> <<[n |-> N, np |-> IF Mode = 3 THEN 1 ELSE 0, nw |-> NW, shape |-> "flat", mats |-> <<>>, cons |-> Cs]>>,
             asgs |-> TLCEval(Asgs), acts |-> IF IOEnv.MODE = "together" THEN Together ELSE Acts]

Init == i \in 1..Count /\ PrintT(ToJson(Scenario))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Sanity == /\ Judge(Scenario.circs[1], Good(Vecs[1]), Main) = "sat" /\ Judge(Scenario.circs[1], Good(Vecs[3]), Main) = "sat"
          /\ \A k \in 4..9 : Judge(Scenario.circs[1], Good(Vecs[k]), Main) = "unsat"
===========================================================================
