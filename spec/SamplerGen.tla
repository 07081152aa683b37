----------------------------- MODULE SamplerGen -----------------------------
(* Draws seeds that resemble each other and histories of samplers, from SEED. *)
EXTENDS Prng, Json, IOUtils, SequencesExt

Seed0 == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Keys == IOEnv.KEYS = "yes"
VARIABLES i
S == Mix(1 + (((Seed0 * 4001) + (i * 613)) % 2000000))

\* A seed, and seeds that differ from it in one byte, by a byte more or less, by length only, by order.
Len0 == RS(S, 1, <<0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, R(S, 2, 300)>>)
Base == [j \in 1..Len0 |-> RS(S, 10 + j, <<0, 255, R(S, 400 + j, 256), R(S, 400 + j, 256)>>)]
Flip(v, j) == [v EXCEPT ![j] = (@ + 1 + R(S, 3, 255)) % 256]
Rev(v) == [j \in 1..Len(v) |-> v[1 + Len(v) - j]]
Candidates == <<Base, Append(Base, 0), Append(Base, R(S, 4, 256))>>
              \o (IF Len0 = 0 THEN <<>> ELSE <<Flip(Base, Len0), Flip(Base, 1), Flip(Base, 1 + R(S, 5, Len0)), Front(Base), Tail(Base), Rev(Base), <<0>> \o Base>>)
              \o (IF Len0 > 32 THEN <<SubSeq(Base, 1, 32), Flip(Base, 33), Flip(Base, 32)>> ELSE <<>>)
              \o <<Base \o Base, [j \in 1..Len0 |-> 0], [j \in 1..(Len0 + 1) |-> 0], <<>>>>
Distinct(q) == FoldLeft(LAMBDA a, x : IF \E j \in 1..Len(a) : a[j] = x THEN a ELSE Append(a, x), <<>>, q)
SeedList == Distinct(Candidates)
NS == Len(SeedList)

Act(op, s, n, pat, a, e, b, k) == [op |-> op, s |-> s, n |-> n, pat |-> pat, a |-> a, e |-> e, b |-> b, k |-> k]
Bounds == <<<<3, 62, 0, 3>>, <<5, 61, 0, 5>>, <<3, 62, 1, 3>>, <<1, 63, 1, 2>>, <<1, 64, -1, 4>>, <<1, 63, 0, 8>>, <<7, 61, 5, 7>>, <<1, 32, 0, 4>>, <<1, 32, 1, 4>>,
            <<1, 0, 0, 1>>, <<1, 1, 0, 2>>, <<3, 0, 0, 3>>, <<5, 0, 0, 5>>, <<7, 0, 0, 7>>, <<10, 0, 0, 10>>, <<16, 0, 0, 16>>, <<7681, 0, 0, 1>>, <<100, 0, 0, 10>>>>
\* the q-th call of a history, by sampler o; the buffer's previous content p is not part of the stream
Calls(q, o, p, long) ==
  LET c == R(q, 1, 8) IN
  CASE c \in {0, 1, 2} -> Act("read", o, RS(q, 2, <<0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, R(q, 3, 300), IF long THEN 8192 + R(q, 4, 3) ELSE 129>>), p, 0, 0, 0, 0)
    [] c \in {3, 4}    -> Act("sample", o, RS(q, 2, <<1, 2, 3, 5, 8, 64, IF long THEN 1021 + R(q, 4, 6) ELSE 17, IF long THEN 1500 ELSE 9>>), 0, 0, 0, 0, 0)
    [] c \in {5, 6}    -> LET b == RS(q, 5, Bounds) IN Act("samplen", o, RS(q, 2, <<1, 2, 5, 600, 2000>>), 0, b[1], b[2], b[3], b[4])
    [] OTHER           -> Act("float", o, RS(q, 2, <<1, 4, 500>>), 0, 0, 0, 0, RS(q, 6, <<1, 2, 8, 16>>))
Hist(h, o, p, len, long) == [j \in 1..len |-> Calls(PM((S \div 2) + (h * 1009) + (j * 31)), o, p, long)]
\* two sequences merged
RECURSIVE Merge(_, _, _)
Merge(a, b, q) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                  ELSE IF (q % 2) = 0 THEN <<Head(a)>> \o Merge(Tail(a), b, PM(q)) ELSE <<Head(b)>> \o Merge(a, Tail(b), PM(q))

Long == R(S, 6, 4) = 0
L == 6 + R(S, 7, 6)
\* sampler 1 on the base seed; sampler 2 makes the same calls, with other buffers; sampler 3 parts company half way; others on the other seeds and fresh
Words ==
  <<Act("seeded", 1, 0, 0, 0, 0, 0, 0), Act("seeded", 1, 0, 0, 0, 0, 0, 0), Act("seeded", 1, 0, 0, 0, 0, 0, 0), Act("fresh", 0, 0, 0, 0, 0, 0, 0), Act("fresh", 0, 0, 0, 0, 0, 0, 0)>>
  \o [j \in 1..(NS - 1) |-> Act("seeded", 1 + j, 0, 0, 0, 0, 0, 0)]
  \o Merge(Hist(1, 1, R(S, 8, 3), L, Long), Merge(Hist(1, 2, 3 + R(S, 9, 90), L, Long), SubSeq(Hist(1, 3, 0, L, Long), 1, L \div 2) \o Hist(2, 3, 1, L \div 2, FALSE), PM(S)), S)
  \o Hist(3, 4, 1, 3, FALSE) \o Hist(3, 5, 1, 3, FALSE)
  \o FlattenSeq([j \in 1..(NS - 1) |-> <<Act("read", 5 + j, 16 + R(S, 30 + j, 60), 1, 0, 0, 0, 0), Act("sample", 5 + j, 8, 0, 0, 0, 0, 0)>>])
Gauss ==
  [j \in 1..NS |-> Act("gseeded", j, 0, 0, 0, 0, 0, 0)] \o <<Act("gseeded", 1, 0, 0, 0, 0, 0, 0), Act("gfresh", 0, 0, 0, 0, 0, 0, 0), Act("gfresh", 0, 0, 0, 0, 0, 0, 0)>>
  \o <<Act("tfresh", 0, 6 + R(S, 40, 20), 0, 0, 0, 0, 0), Act("tcopy", 1, 0, 0, 0, 0, 0, 0), Act("tcopy", 2, 0, 0, 0, 0, 0, 0), Act("tfresh", 0, 6, 0, 0, 0, 0, 0)>>
  \o [j \in 1..(NS + 3) |-> Act("gsample", j, 64, 0, 0, 0, 0, 1000)]
  \o [j \in 1..4 |-> Act("tsample", j, 100, 0, 0, 0, 0, 0)] \o [j \in 1..4 |-> Act("tsample", 5 - j, 100, 0, 0, 0, 0, 0)]
  \o <<Act("gsample", 1, 200, 0, 0, 0, 0, 3), Act("gsample", NS + 1, 200, 0, 0, 0, 0, 3), Act("tcopy", 1, 0, 0, 0, 0, 0, 0), Act("tsample", 5, 100, 0, 0, 0, 0, 0)>>
CapOf(j) == RS(S, 50 + j, <<1, 32, 33, 1 + R(S, 60 + j, 500)>>)
KeyActs ==
  <<Act("params", 0, CapOf(1), 0, 0, 0, 0, 1), Act("params", 0, CapOf(2) + 500, 0, 0, 0, 0, 2), Act("params", 0, 768, 0, 0, 1, 0, 2)>>
  \o [j \in 1..(IF NS < 6 THEN NS ELSE 6) |-> Act("key", j, 0, 0, 0, 0, 0, 1)] \o <<Act("key", 1, 0, 0, 0, 0, 0, 2), Act("key", 2, 0, 0, 0, 0, 0, 2), Act("key", 2, 0, 0, 0, 0, 0, 1), Act("key", 1, 0, 0, 0, 0, 0, 1),
    Act("key", 1, 0, 0, 0, 0, 0, 2), Act("key", 1, 0, 0, 0, 0, 0, 3), Act("key", 2, 0, 0, 0, 0, 0, 3), Act("key", 1, 0, 0, 0, 0, 0, 3)>>

Case == [seeds |-> SeedList, acts |-> IF Keys THEN KeyActs ELSE IF R(S, 70, 4) = 0 THEN Gauss ELSE Words]
Init == i \in 1..Count /\ PrintT(ToJson(Case))
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
