------------------------------- MODULE Gauss --------------------------------
(* Samples of Gaussian distributions, counted in buckets, against the       *)
(* distribution itself.  Bucket b of lo..hi gathers the mass at `points`    *)
(* positions (a * b) + o + (step * i), a = points * step, where the mass at *)
(* position j is exp(-j^2 / (d1 * d2)): the integers for a discrete         *)
(* Gaussian, cells between them for a rounded one or a wide bucket.         *)
(* Fixed point numbers have 72 bits behind the point.                       *)
EXTENDS Limbs, TLC

Frac == 6
OneF == Bin(12 * Frac)
MulF(x, y) == Drop(Times(x, y), Frac)
RECURSIVE PowF(_, _)
PowF(x, e) == IF e = 0 THEN OneF ELSE LET h == PowF(MulF(x, x), e \div 2) IN IF (e % 2) = 0 THEN h ELSE MulF(h, x)
\* exp(-1 / (d1 * d2)), by its series; d1 * d2 is at least 32
ExpInv(d1, d2) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == Div(Div(Div(acc.t, d1), d2), i)
                                    IN IF (i % 2) = 1 THEN [t |-> t, p |-> acc.p, m |-> Sum2(acc.m, t)] ELSE [t |-> t, p |-> Sum2(acc.p, t), m |-> acc.m],
                    [t |-> OneF, p |-> OneF, m |-> <<>>], [i \in 1..14 |-> i])
  IN Minus(r.p, r.m)

\* Mass at p, p + s, ..., p + (n-1) * s for p >= 0: exp(-(p+s)^2/d) = exp(-p^2/d) * exp(-(2ps + s^2)/d).
Ray(q, p, s, n) ==
  IF n = 0 THEN <<>>
  ELSE LET q2 == PowF(q, 2 * s * s)
       IN FoldLeft(LAMBDA acc, i : [w |-> MulF(acc.w, acc.r), r |-> MulF(acc.r, q2), out |-> Append(acc.out, acc.w)],
                   [w |-> PowF(q, p * p), r |-> PowF(q, (2 * p * s) + (s * s)), out |-> <<>>], [i \in 1..n |-> i]).out

\* Mass at f, f + s, ..., (n positions), on both sides of zero.
Line(q, f, s, n) ==
  LET neg == IF f >= 0 THEN 0 ELSE Min2(n, ((0 - f) + s - 1) \div s)      \* positions below zero
      last == f + ((neg - 1) * s)
  IN (IF neg = 0 THEN <<>> ELSE Reverse(Ray(q, 0 - last, s, neg))) \o Ray(q, f + (neg * s), s, n - neg)

\* The mass of each bucket.
Mass(c) ==
  LET b == (c.hi - c.lo) + 1
      w == Line(ExpInv(c.d1, c.d2), (c.points * c.step * c.lo) + c.o, c.step, b * c.points)
  IN [i \in 1..b |-> FoldLeft(Sum2, <<>>, SubSeq(w, ((i - 1) * c.points) + 1, i * c.points))]

Sums(f) == FoldLeft(LAMBDA acc, x : Append(acc, IF acc = <<>> THEN x ELSE Sum2(acc[Len(acc)], x)), <<>>, f)

\* Of 4^h independent samples, cnt[i] fell in bucket i, `out` outside, and of `pairs`
\* successive ones both at or above bucket `mid`.
\* The tolerances are deviations that chance exceeds less than once in 10^10 times.
Faults(c, cnt, out, pairs) ==
  LET n == Bin(2 * c.h)
      root == Bin(c.h)
      m == Mass(c)
      w == Sums(m)
      z == w[Len(w)]
      k == Sums([i \in 1..Len(cnt) |-> FromInt(cnt[i])])
      \* Dvoretzky-Kiefer-Wolfowitz: 3.5 roots of the number of samples
      shape == \A i \in 1..Len(m) : ~Less(Times(Times(root, <<7>>), z), Times(<<2>>, Apart(Times(k[i], z), Times(n, w[i]))))
      \* each bucket, and each tail: seven roots of its expectation, and 20
      near(kk, ww) == LET d == Apart(Times(kk, z), Times(n, ww))
                          e == Times(<<20>>, z)
                          f == Minus(d, e)
                      IN Less(d, e) \/ ~Less(Times(<<49>>, Times(Times(n, ww), z)), Times(f, f))
      bucket == \A i \in 1..Len(m) : near(FromInt(cnt[i]), m[i])
      tails == \A i \in 1..Len(m) : near(k[i], w[i]) /\ near(Minus(k[Len(k)], k[i]), Minus(z, w[i]))
      up == Minus(z, w[c.mid])
      both == Apart(Times(FromInt(pairs), Times(z, z)), Times(n, Times(up, up)))
  IN {f[1] : f \in {x \in {<<"shape", shape>>, <<"bucket", bucket>>, <<"tail", tails>>, <<"outside", out = 0>>, <<"number", k[Len(k)] = n>>,
                           <<"independence", ~Less(Times(Times(<<7>>, root), Times(z, z)), both)>>} : ~x[2]}}

\* The mass of all integers does not depend on the centre (deviation 1: up to 10^-8), and halves are symmetric.
ASSUME LET total(k) == LET s == Sums(Mass([d1 |-> 128, d2 |-> 4096, step |-> 512, points |-> 1, lo |-> -10, hi |-> 10, o |-> 0 - k])) IN s[Len(s)]
       IN \A k \in {1, 77, 256, 400} : Less(Apart(total(0), total(k)), Bin(72 - 25))
ASSUME LET m == Mass([d1 |-> 8, d2 |-> 256, step |-> 2, points |-> 16, lo |-> -9, hi |-> 9, o |-> -15])
       IN \A i \in 1..9 : Apart(m[i], m[20 - i]) = <<>>
=============================================================================
