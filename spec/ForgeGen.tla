------------------------------ MODULE ForgeGen ------------------------------
(* Every way of putting an opening together from two sources, for drawn     *)
(* kinds and places of the difference, and enlarged answers around the      *)
(* bounds.                                                                  *)
EXTENDS Forge, Prng, Json, IOUtils

Shapes == ndJsonDeserialize(IOEnv.SHAPES)   \* id, lens, cols, rows, exp, slots, limbs, in, out, mlwe, n
Seed0 == atoi(IOEnv.SEED)
Places == atoi(IOEnv.PLACES)
Kind == IOEnv.KIND                          \* chain, norm

At(t, i) == Mix(1 + (((Seed0 * 6151) + (t * 30011) + (i * 5003)) % 2000000000))

K(form, q, t, c, n, r, p, y, mix) ==
  LET s == Shapes[t] IN
  [form |-> form, i |-> R(q, 1, Len(s.lens)), col |-> R(q, 2, s.cols), row |-> RS(q, 3, <<0, s.rows - 1, R(q, 4, s.rows), R(q, 5, s.rows)>>),
   cf |-> RS(q, 6, <<0, s.n - 1, R(q, 7, s.n), R(q, 8, s.n)>>), amt |-> RR(q, 9, 1, 1000), wide |-> "one",
   c |-> c, n |-> n, r |-> r, p |-> p, y |-> y, mix |-> mix, part |-> R(q, 10, 10000)]

Srcs == {1, 2}
\* All choices of sources, on the first places; then the ones that break a single link.
Chains(t) ==
  {K(form, At(t, (c * 16) + (n * 8) + (r * 4) + (p * 2) + y + (100 * i)), t, c, n, r, p, y, "") :
     form \in {"fresh", "cell", "limb"}, c \in Srcs, n \in Srcs, r \in Srcs, p \in Srcs, y \in Srcs, i \in 1..1}
Single(t) ==
  UNION {{K("cell", q, t, 1, 2, 2, 2, 2, ""), K("cell", q, t, 1, 1, 2, 2, 2, ""), K("cell", q, t, 1, 1, 1, 2, 2, ""), K("cell", q, t, 1, 1, 1, 1, 2, ""),
          K("cell", q, t, 2, 2, 2, 2, 2, ""),
          K("limb", q, t, 1, 1, 1, 2, 2, ""), K("limb", q, t, 1, 1, 2, 2, 2, ""),
          [K("cell", q, t, 1, 1, 1, 2, 1, "") EXCEPT !.col = Shapes[t].cols],
          [K("cell", q, t, 1, 1, 2, 1, 1, "") EXCEPT !.col = Shapes[t].cols],
          [K("limb", q, t, 1, 1, 1, 2, 1, "") EXCEPT !.col = Shapes[t].cols]} : q \in {At(t, 5000 + i) : i \in 1..Places}}
Mixes(t) ==
  LET s == Shapes[t]
      Some(m, max, i) == IF max <= 2 * Places THEN i - 1 ELSE R(At(t, 7000 + i), 3, max)
      Parts(max) == IF max <= 2 * Places THEN max ELSE 2 * Places
  IN {[K("fresh", At(t, 7100 + i), t, 1, 1, 1, 1, 1, "outer") EXCEPT !.part = Some("o", s.out, i)] : i \in 1..Parts(s.out)}
     \cup {[K("fresh", At(t, 7200), t, 1, 1, 1, 1, 1, "outer") EXCEPT !.part = x] : x \in {0, s.out - 1}}
     \cup {[K("fresh", At(t, 7300 + i), t, 1, 1, 1, 1, 1, "inner") EXCEPT !.part = Some("i", s.in * (s.cols + 1), i)] : i \in 1..Parts(s.in * (s.cols + 1))}
     \cup {[K("fresh", At(t, 7400), t, 1, 1, 1, 1, 1, "inner") EXCEPT !.part = x] : x \in {0, s.in - 1, s.in * s.cols, (s.in * (s.cols + 1)) - 1}}
     \cup {[K("fresh", At(t, 7500 + i), t, 1, 1, 1, 1, 1, "partial") EXCEPT !.part = Some("p", s.cols + 1, i)] : i \in 1..Parts(s.cols + 1)}
     \cup (IF Len(s.lens) = 1 THEN {} ELSE {K("fresh", At(t, 7600 + i), t, 1, 1, 1, 1, 1, "claims") : i \in 1..Len(s.lens)})

Amounts == <<101, 105, 120, 80, 95, 60, 103, 200, 1000, 100000, 71, 99>>
Norms(t) ==
  {LET q == At(t, 9000 + (i * 10) + f)
       form == <<"bigcol", "bigmlwe", "bigcut", "bigin", "bigout", "bigenc">>[f]
   IN [K(form, q, t, 2, 2, 2, 2, 2, "") EXCEPT !.amt = Amounts[1 + ((i + Seed0) % Len(Amounts))],
        !.wide = RS(q, 20, <<"one", "one", "first", "second", "every", "every">>),
        !.row = CASE form \in {"bigmlwe"} -> RS(q, 21, <<0, s0.mlwe - 1, s0.mlwe, (s0.mlwe + s0.in) - 1, R(q, 22, s0.mlwe + s0.in)>>)
                  [] form \in {"bigcut", "bigin"} -> RS(q, 21, <<0, s0.in - 1, R(q, 22, s0.in)>>)
                  [] form = "bigout" -> RS(q, 21, <<0, s0.out - 1, R(q, 22, s0.out)>>)
                  [] OTHER -> RS(q, 21, <<0, s0.rows - 1, R(q, 22, s0.rows)>>)] :
     i \in 1..Places, f \in 1..6, s0 \in {Shapes[t]}}

Cases(t) == IF Kind = "chain" THEN Chains(t) \cup Single(t) \cup Mixes(t) ELSE Norms(t)

VARIABLES t, k
Init == t \in 1..Len(Shapes) /\ k \in Cases(t) /\ PrintT(ToJson([t |-> Shapes[t].id, k |-> k]))
Next == FALSE /\ UNCHANGED <<t, k>>
Spec == Init /\ [][Next]_<<t, k>>
Soundness == Sound(k, FALSE)
=============================================================================
