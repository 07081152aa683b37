From 0db8c1168dc803f0850e86858d9c6d388d5159cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 01/26] fix: batch arithmetic and sum constraints with distinct
 powers of the challenge

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..ae901fd 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,8 +371,8 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 	}
 
 	return pOut
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..d9fc96f 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,8 +232,8 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
 		out.Add(out, eval)
+		out.Mul(out, batchConst)
 	}
 
 	return out
-- 
2.43.0


From c9d5e00a0308157175f8a3a544b0316bf2af1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 02/26] fix: check the declared sums of sum constraints

---
 buckler/verifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index d9fc96f..3aae264 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -311,5 +311,15 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
 
+	// The remainder has the batched sum divided by rank as its constant term.
+	sum := z.New()
+	for _, s := range v.ctx.sumCheckSums {
+		sum.Add(sum, z.New().SetBigInt(s))
+		sum.Mul(sum, batchConst)
+	}
+	sum.Mul(sum, batchConst)
+	sum.Mul(sum, z.New().Inverse(z.New().SetUint64(uint64(v.ctx.rank))))
+	test.Add(test, sum)
+
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From bcfc6a5eb7c670a719465c582f997a7fba098850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 03/26] fix: bind the claimed evaluations to the Jindo
 transcript

---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..efbe5e6 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -217,12 +217,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -245,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -315,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From 556aef38366e5fdf62433e9383d712a455f51b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 04/26] fix: bind the public witnesses to the Fiat-Shamir
 transcript

---
 buckler/prover.go   | 6 ++++++
 buckler/verifier.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index ae901fd..7820f67 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -126,6 +126,12 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for i := range wData.pw {
 		wData.pwEcd[i] = p.ecd.Encode(wData.pw[i])
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
+
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
 	}
 
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 3aae264..beb2840 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -71,6 +71,12 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	pwEcd := make([]*bigpoly.Poly[E], v.ctx.pwCnt)
 	for i := range pw {
 		pwEcd[i] = v.ecd.Encode(pw[i])
+
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
 	}
 
 	for i := range v.ctx.wCnt {
-- 
2.43.0


From 8f6ca7df913c56a0093e80062f823ca8255a3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 05/26] fix: decompose norm bounds that are powers of two or
 zero

---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From 7358f32b2698a9a2c0d36ecad83d83ace56d98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 06/26] fix: compute each squared two-norm from zero

---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 7820f67..5aa8853 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -96,6 +96,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 2ef6e59c4388b795bdfa0819151c0942c5a4c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 07/26] fix: keep every norm constraint placed on the same
 witness

---
 buckler/context.go  | 66 ++++++++++++++++++++++-----------------------
 buckler/prover.go   | 33 +++++++++++------------
 buckler/verifier.go |  8 +++---
 3 files changed, 53 insertions(+), 54 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..b56117e 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -35,18 +35,36 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
-
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
-
-	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
-	projInfDcmpBound   map[uint64]*big.Int
-	projInfDcmpWitness map[uint64]Witness[E]
+	infDcmps []infDcmp[E]
+	twoDcmps []twoDcmp[E]
+
+	projChecker LinearChecker[E]
+	projDcmps   []projDcmp[E]
+}
+
+// infDcmp is the decomposition of a witness with an infinity-norm constraint.
+type infDcmp[E bignum.Uint[E]] struct {
+	id      uint64
+	bound   *big.Int
+	witness []Witness[E]
+}
+
+// twoDcmp is the decomposition of a witness with a squared two-norm constraint.
+type twoDcmp[E bignum.Uint[E]] struct {
+	id      uint64
+	bound   *big.Int
+	base    PublicWitness[E]
+	mask    PublicWitness[E]
+	witness Witness[E]
+}
+
+// projDcmp is the decomposition of a projected witness
+// with an approximate infinity-norm constraint.
+type projDcmp[E bignum.Uint[E]] struct {
+	id      uint64
+	bound   *big.Int
+	proj    Witness[E]
+	witness Witness[E]
 }
 
 // newContext creates a new [Context].
@@ -60,18 +78,6 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
-
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
-
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
-
-		projWitness:        make(map[uint64]Witness[E]),
-		projInfDcmpBound:   make(map[uint64]*big.Int),
-		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
 }
 
@@ -140,8 +146,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infDcmps = append(ctx.infDcmps, infDcmp[E]{id: id, bound: bound, witness: wDcmp})
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -179,10 +184,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoDcmps = append(ctx.twoDcmps, twoDcmp[E]{id: id, bound: bound, base: pwBase, mask: pwMask, witness: wDcmp})
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -212,15 +214,13 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
 
 	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
 	slackBound.Mul(slackBound, bound)
-	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
-	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
+	ctx.projDcmps = append(ctx.projDcmps, projDcmp[E]{id: witnessToID(w), bound: slackBound, proj: wProj, witness: wProjDcmp})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
 	// ctx.AddInfNormConstraint(wProjDcmp, 1)
 
diff --git a/buckler/prover.go b/buckler/prover.go
index 5aa8853..f383f94 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -74,23 +74,23 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
+	for _, inf := range p.ctx.infDcmps {
+		base := decomposeBase(inf.bound)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[inf.id][i].BigInt(bigCoeff)
 			dcmp := decomposeBig(bigCoeff, base, mod)
-			for j, wDcmp := range wDcmps {
+			for j, wDcmp := range inf.witness {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, two := range p.ctx.twoDcmps {
+		base := decomposeBase(two.bound)
 
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(two.base)
+		pwMaskID := witnessToID(two.mask)
 		for i := range base {
 			wData.pw[pwBaseID][i].SetBigInt(base[i])
 			wData.pw[pwMaskID][i].SetInt64(1)
@@ -98,14 +98,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[two.id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
 			sqNm.Add(sqNm, mul)
 		}
 		sqNm.Mod(sqNm, mod)
 
 		dcmp := decomposeBig(sqNm, base, mod)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
+		wDcmpID := witnessToID(two.witness)
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
 		}
@@ -182,15 +182,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
-		}
+		for _, proj := range p.ctx.projDcmps {
+			wProjID := witnessToID(proj.proj)
+			chk.TransformTo(wData.w[wProjID], wData.w[proj.id])
 
-		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-			base := decomposeBase(p.ctx.projInfDcmpBound[id])
-			wDcmpID := witnessToID(wDcmp)
+			base := decomposeBase(proj.bound)
+			wDcmpID := witnessToID(proj.witness)
 			for i := range 128 {
-				wData.w[id][i].BigInt(bigCoeff)
+				wData.w[wProjID][i].BigInt(bigCoeff)
 				dcmp := decomposeBig(bigCoeff, base, mod)
 				for j := range base {
 					wData.w[wDcmpID][i*len(base)+j].SetInt64(dcmp[j])
diff --git a/buckler/verifier.go b/buckler/verifier.go
index beb2840..3750d27 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -46,11 +46,11 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, two := range v.ctx.twoDcmps {
+		base := decomposeBase(two.bound)
 
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(two.base)
+		pwMaskID := witnessToID(two.mask)
 		for i := range base {
 			pw[pwBaseID][i].SetBigInt(base[i])
 			pw[pwMaskID][i].SetInt64(1)
-- 
2.43.0


From c4d2bbb9f269b44f221016aa1e8eff081145c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 08/26] fix: enforce ternary digits in the approximate
 infinity-norm constraint

---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index b56117e..3ca6b83 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -222,7 +222,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	slackBound.Mul(slackBound, bound)
 	ctx.projDcmps = append(ctx.projDcmps, projDcmp[E]{id: witnessToID(w), bound: slackBound, proj: wProj, witness: wProjDcmp})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From 8a9a5e7e1d435bc92b3ee856be4b1d0ea93a807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 09/26] fix: approximate infinity-norm constraint with bound
 zero

---
 buckler/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index 3ca6b83..f1fcb77 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -206,6 +206,11 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() <= 0 {
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
-- 
2.43.0


From 870be5f23debf3273621cc8c2e2730e45509d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 10/26] fix: report errors found while walking nested circuit
 fields

---
 buckler/compile.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..bf0a9ee 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -68,15 +68,19 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			return w.firstWalk(v.Elem())
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -108,15 +112,19 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			return w.prvWalk(prv, v.Elem(), pw, sw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -140,15 +148,19 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			return w.vrfWalk(vrf, v.Elem(), pw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
-- 
2.43.0


From 14379c4322c8891901e826fae967c85361ad00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 11/26] fix: refuse assignments with a wrong number of
 witnesses

---
 buckler/compile.go  | 10 ++++++++++
 buckler/context.go  |  7 +++++++
 buckler/prover.go   |  3 +++
 buckler/verifier.go |  3 +++
 4 files changed, 23 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index bf0a9ee..49617ae 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errCntMismatch  = fmt.Errorf("number of witnesses mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -93,6 +94,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= prv.ctx.pwInCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -101,6 +105,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= prv.ctx.wInCnt {
+			return errCntMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -137,6 +144,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= vrf.ctx.pwInCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
diff --git a/buckler/context.go b/buckler/context.go
index f1fcb77..3548cb3 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -16,6 +16,10 @@ type Context[E bignum.Uint[E]] struct {
 	pwCnt uint64
 	// wCnt is the number of witnesses.
 	wCnt uint64
+	// pwInCnt is the number of public witnesses assigned by the user.
+	pwInCnt uint64
+	// wInCnt is the number of witnesses assigned by the user.
+	wInCnt uint64
 
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
@@ -75,6 +79,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwInCnt: walker.pwCnt,
+		wInCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index f383f94..382be66 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -55,6 +55,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.pwInCnt || wk.wCnt != p.ctx.wInCnt {
+		return nil, errCntMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 3750d27..7064486 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if wk.pwCnt != v.ctx.pwInCnt {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 7edeb116fdae4ad81b6a9e04243125faa0807232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 12/26] fix: commit to the empty vector as zero

---
 jindo/prover.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index efbe5e6..857486d 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From 07a20799f7ed15cb0d0d9449c8a8d14e4e186e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 13/26] fix: allocate commitments in the outer ring

---
 jindo/entities.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..4784494 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
-- 
2.43.0


From c4fa88dad06d358e3ba688fd386ba32b728c71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 14/26] fix: sample challenge coefficients in [-ChallengeBound,
 ChallengeBound]

---
 jindo/utils.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..88d5f79 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -26,11 +26,12 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 		binary.BigEndian.Uint64(chalBytes[8:]),
 	}
 
-	cInfNm := uint64(params.ChallengeBound())
+	// Coefficients are in [-ChallengeBound, ChallengeBound].
+	cInfNm := params.ChallengeBound()
 	for i := 0; i < params.ecd.exp; i++ {
-		r := divMod64(c, cInfNm)
-		if r > cInfNm/2 {
-			r = cInfNm - r
+		r := divMod64(c, 2*cInfNm+1)
+		if r > cInfNm {
+			r = 2*cInfNm + 1 - r
 			for k := 0; k <= pOut.Level(); k++ {
 				pOut.Coeffs[k][i*params.slots] = ringQ.SubRings[k].Modulus - r
 			}
-- 
2.43.0


From 3826cb62aaadd2280dcc1dd8a46098a7e038a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 15/26] fix: copy vectors shorter than eight elements within
 bounds

---
 math/bigpoly/ntt.go  | 60 +++-----------------------------------------
 math/bigpoly/poly.go | 16 +-----------
 math/bigpoly/vec.go  | 22 ++++++++++++++++
 3 files changed, 27 insertions(+), 71 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..9695307 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,40 +96,14 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
@@ -204,40 +178,14 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..80ac9f5 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -2,7 +2,6 @@ package bigpoly
 
 import (
 	"bytes"
-	"unsafe"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -42,20 +41,7 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(p.Coeffs, p0.Coeffs)
 
 	p.IsNTT = p0.IsNTT
 }
diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..256b18d 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -6,6 +6,28 @@ import (
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
 
+func copyVecTo[E bignum.Uint[E]](xOut, x0 []E) {
+	M := (len(xOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
+		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
+		w0 := (*[8]E)(unsafe.Pointer(&x0[i]))
+
+		wOut[0].Set(w0[0])
+		wOut[1].Set(w0[1])
+		wOut[2].Set(w0[2])
+		wOut[3].Set(w0[3])
+
+		wOut[4].Set(w0[4])
+		wOut[5].Set(w0[5])
+		wOut[6].Set(w0[6])
+		wOut[7].Set(w0[7])
+	}
+
+	for i := M; i < len(xOut); i++ {
+		xOut[i].Set(x0[i])
+	}
+}
+
 func addVecTo[E bignum.Uint[E]](xOut, x0, x1 []E) {
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
-- 
2.43.0


From fb4baad272e411d35a89a55e5f705507b1b8e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 16/26] fix: overwrite the buffer in UniformSampler.Read

---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 4d6013af6f40ed3bc58fbc9ed7bb651e60678bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 17/26] fix: support constraints without secret witnesses

---
 buckler/compile.go | 2 +-
 buckler/context.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 49617ae..91ffba4 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -199,7 +199,7 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 
 	jindoParams := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
 
-	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank)-1))
+	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank, witnessRank+1)-1))
 
 	prv := &Prover[E]{
 		JindoParams: jindoParams,
diff --git a/buckler/context.go b/buckler/context.go
index 3548cb3..49a5bac 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -91,7 +91,7 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 // AddArithmeticConstraint adds an arithmetic constraint to the context.
 func (ctx *Context[E]) AddArithmeticConstraint(c ArithmeticConstraint[E]) {
 	ctx.arithConstraints = append(ctx.arithConstraints, c)
-	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank))
+	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank), ctx.rank)
 }
 
 // AddSumCheckConstraint adds a sumcheck constraint to the context.
@@ -103,7 +103,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
 	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
-	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
+	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank), ctx.rank)
 }
 
 // AddLinearConstraint adds a linear constraint to the context.
@@ -258,7 +258,7 @@ func (ctx *Context[E]) batch() int {
 
 // commitRank returns the maximum rank of committed polynomials.
 func (ctx *Context[E]) commitRank() int {
-	rank := 0
+	rank := 1
 	if ctx.wCnt > 0 {
 		rank = ctx.rank + 1
 	}
-- 
2.43.0


From ff155039c9769d95ac458000d12052b7a1658dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 18/26] fix: reject malformed proofs instead of panicking

---
 buckler/verifier.go | 30 ++++++++++++++++++++++++++++++
 jindo/verifier.go   | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 7064486..2cf6d44 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	if !v.verifyShape(pf) {
+		return false
+	}
+
 	var z E
 
 	pw := make([]PublicWitness[E], v.ctx.pwCnt)
@@ -225,6 +229,32 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// verifyShape verifies that the proof has every element that the circuit needs.
+func (v *Verifier[E]) verifyShape(pf *Proof[E]) bool {
+	if pf == nil || len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch() {
+		return false
+	}
+
+	isNil := func(x any) bool {
+		xv := reflect.ValueOf(x)
+		return xv.Kind() == reflect.Pointer && xv.IsNil()
+	}
+
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil || isNil(pf.Evals[i]) {
+			return false
+		}
+	}
+	if v.ctx.HasLinearCheck() && isNil(pf.LinCheckMaskSum) {
+		return false
+	}
+	if v.ctx.HasSumCheck() && isNil(pf.SumCheckMaskSum) {
+		return false
+	}
+
+	return true
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..8e2f5aa 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -53,6 +53,10 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		panic("len(v) != params.batch")
 	}
 
+	if !v.verifyShape(com, pf) {
+		return false
+	}
+
 	oracle := sha3.NewSHAKE128()
 	v.ck.WriteRawTo(oracle)
 	for i := 0; i < v.params.batch; i++ {
@@ -138,6 +142,39 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	return true
 }
 
+// verifyShape verifies that the commitments and the proof have the shape given by the parameters.
+func (v *Verifier[E]) verifyShape(com []*Commitment, pf *Proof) bool {
+	isShape := func(ringQ *ring.Ring, p []ring.Poly, length int) bool {
+		if len(p) != length {
+			return false
+		}
+		for i := range p {
+			if len(p[i].Coeffs) != ringQ.ModuliChainLength() {
+				return false
+			}
+			for j := range p[i].Coeffs {
+				if len(p[i].Coeffs[j]) != ringQ.N() {
+					return false
+				}
+			}
+		}
+		return true
+	}
+
+	for i := range com {
+		if com[i] == nil || !isShape(v.params.ringQOut, com[i].Value, v.params.outMSISRank) {
+			return false
+		}
+	}
+
+	return pf != nil &&
+		isShape(v.params.ringQOut, pf.InCommit, v.params.inComDcmpLen) &&
+		isShape(v.params.ringQ, pf.Partial, v.params.cols) &&
+		isShape(v.params.ringQ, []ring.Poly{pf.PartialMask}, 1) &&
+		isShape(v.params.ringQ, pf.Encode, v.params.rows) &&
+		isShape(v.params.ringQ, pf.MLWE, v.params.mlweRank+v.params.inMSISRank)
+}
+
 // verifyOuterCommitment verfies the outer commitment.
 func (v *Verifier[E]) verifyOuterCommitment(batch []ring.Poly, com []*Commitment, pf, pfInv *Proof) bool {
 	inDcmpInv := append(pfInv.InCommit, make([]ring.Poly, v.params.outMSISRank)...)
-- 
2.43.0


From 15e0f3db7a21a87f78247525edb135d9731a9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 19/26] fix: give the prover and the verifier their own context

---
 buckler/compile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 91ffba4..50031b7 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -193,9 +193,12 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 		return nil, nil, err
 	}
 
+	// The context holds the random projection of the current proof,
+	// so the prover and the verifier need their own.
 	ctx := newContext(witnessRank, w)
-
 	c.Define(ctx)
+	ctxVrf := newContext(witnessRank, w)
+	c.Define(ctxVrf)
 
 	jindoParams := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
 
@@ -222,7 +225,7 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 
 		polyVerifier: jindo.NewVerifier[E](jindoParams, crs),
 
-		ctx: ctx,
+		ctx: ctxVrf,
 	}
 
 	return prv, vrf, nil
-- 
2.43.0


From 5aa5e04a3d26c7a970eb5b3b02986fcdc30602f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 20/26] fix: refuse mask sums of checks the circuit does not
 have

---
 buckler/verifier.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 2cf6d44..8169547 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -245,14 +245,16 @@ func (v *Verifier[E]) verifyShape(pf *Proof[E]) bool {
 			return false
 		}
 	}
-	if v.ctx.HasLinearCheck() && isNil(pf.LinCheckMaskSum) {
-		return false
-	}
-	if v.ctx.HasSumCheck() && isNil(pf.SumCheckMaskSum) {
-		return false
+	isMaskSum := func(hasCheck bool, maskSum E) bool {
+		if !hasCheck {
+			// A mask sum without a check is the zero value.
+			return reflect.ValueOf(&maskSum).Elem().IsZero()
+		}
+		return !isNil(maskSum)
 	}
 
-	return true
+	return isMaskSum(v.ctx.HasLinearCheck(), pf.LinCheckMaskSum) &&
+		isMaskSum(v.ctx.HasSumCheck(), pf.SumCheckMaskSum)
 }
 
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
-- 
2.43.0


From 4a3a2722066ac5c3f9b4a8d64dcfa946ea001ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 21/26] fix: keep at least two rows after the first

With a single row after the first, the shifted last row ends one coefficient
beyond the rank, so that a polynomial of rank + 1 coefficients can be committed
and the degree checks of Buckler's linear and sum checks prove nothing.
---
 jindo/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..23537b5 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -146,7 +146,9 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 	minSize := math.Inf(1)
 	for nn := 1; nn <= maxCols; nn <<= 1 {
 		n := float64(nn)
-		m := math.Ceil(float64(targetN) / (n * l))
+		// The last row is shifted by one, so it must not be the only row after the first:
+		// otherwise a polynomial of rank + 1 coefficients can be committed.
+		m := math.Max(2, math.Ceil(float64(targetN)/(n*l)))
 
 		xOne := math.Sqrt(k) * b
 		cOne := math.Sqrt(k) * min(b, math.Exp2(120/k)) / 2
-- 
2.43.0


From 318384e6ba36d7125c864dd57e2872497fa6d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 22/26] fix: height of the first ziggurat layer

---
 math/csprng/gaussian_rounded.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/gaussian_rounded.go b/math/csprng/gaussian_rounded.go
index a289c73..daa32cd 100644
--- a/math/csprng/gaussian_rounded.go
+++ b/math/csprng/gaussian_rounded.go
@@ -36,6 +36,7 @@ func init() {
 	}
 	kn[0] = uint64((rn * normal(rn) / v) * scale)
 	wn[0] = (v / normal(rn)) / scale
+	fn[0] = 1
 }
 
 func normal(x float64) float64 {
-- 
2.43.0


From c0798a41560123680cb43dfaff9d01dbfd698955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 23/26] fix: exclude zero from COSAC's rounding sampler

---
 math/csprng/gaussian_cosac.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..ab870d5 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -19,7 +19,7 @@ func NewCOSACSampler() *COSACSampler {
 	}
 }
 
-// sampleRound samples a rounded Gaussian distribution.
+// sampleRound samples from Discrete Gaussian distribution over the nonzero integers.
 func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 	for {
 		y := stdDev * s.roundedSampler.normFloat()
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = yRound <= -0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = yRound >= 0.5
 		}
 
 		if cmp {
-- 
2.43.0


From 149817a6d939039e2e8a425a52d7dcce65127322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 24/26] fix: sum the mass up to the candidate in the twin-CDT
 sampler

---
 math/csprng/gaussian_twin_cdt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..fc641fe 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -98,7 +98,7 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= int64(v0)+s.tailLo; x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From 67330a95acd6de674fde7f0680f6c1b62caaa58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 25/26] fix: centers behind the last table of the twin-CDT
 sampler

---
 math/csprng/gaussian_twin_cdt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index fc641fe..bf6a610 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -79,7 +79,10 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	cFrac := center - cFloor
 
 	c0 := int64(math.Floor(blockSize*cFrac)) % blockSize
-	c1 := int64(math.Ceil(blockSize*cFrac)) % blockSize
+	c1 := int64(math.Ceil(blockSize * cFrac))
+	// The table for center 1 is the table for center 0, shifted by one.
+	c1Shift := int(c1 / blockSize)
+	c1 %= blockSize
 
 	u := s.baseSampler.Sample()
 
@@ -91,6 +94,7 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	if ok {
 		v1 -= 1
 	}
+	v1 += c1Shift
 
 	if v0 == v1 {
 		return int64(v0) + int64(cFloor) + s.tailLo
-- 
2.43.0


From 14a5ddaefcc61cee4d9b2c39e52965a8dccd9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 26/26] fix: refuse assignments that are not pointers to the
 circuit

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 382be66..269544d 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -40,7 +40,7 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
-	if p.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(p.ctx.circType) {
 		return nil, fmt.Errorf("circuit type mismatch")
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8169547..f25d0d8 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,7 +27,7 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
-	if v.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(v.ctx.circType) {
 		return false
 	}
 
-- 
2.43.0

