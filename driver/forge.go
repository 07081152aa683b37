package main

import (
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// FCase is an opening put together from the parts of two commitments.
// Source 1 is an honest commitment, source 2 differs from it in polynomial I as Form says.
type FCase struct {
	Form string `json:"form"` // fresh, cell, limb, bigenc, bigcol, bigmlwe, bigcut, bigin, bigout
	I    int    `json:"i"`    // polynomial of the batch
	Col  int    `json:"col"`
	Row  int    `json:"row"`
	Cf   int    `json:"cf"`   // coefficient
	Amt  int    `json:"amt"`  // size in percent of the bound
	Wide string `json:"wide"` // one, first, second, every: coefficients the size is spread over
	C    int    `json:"c"`    // source of the commitments, inner commitments, responses, partial openings and claims
	N    int    `json:"n"`
	R    int    `json:"r"`
	P    int    `json:"p"`
	Y    int    `json:"y"`
	Mix  string `json:"mix"` // only a part of it: "", outer, inner, partial, claims
	Part int    `json:"part"`
}

type FTarget struct {
	Target
	Forge []FCase `json:"forge"`
}

type fCaseRecord struct {
	FCase
	OK   bool `json:"ok"` // it could be put together
	Acc  bool `json:"acc"`
	Pan  bool `json:"pan"`
	Same bool `json:"same"` // the claims of both sources are the same
	Res  int  `json:"res"`  // norms in thousandths of the bounds
	Dcmp int  `json:"dcmp"`
}

type fRecord struct {
	Id    int           `json:"id"`
	Field string        `json:"field"`
	Cap   int           `json:"cap"`
	Lens  []int         `json:"lens"`
	Cols  int           `json:"cols"`
	Rows  int           `json:"rows"`
	Exp   int           `json:"exp"`
	Slots int           `json:"slots"`
	Limbs int           `json:"limbs"`
	In    int           `json:"in"`
	Out   int           `json:"out"`
	Mlwe  int           `json:"mlwe"`
	N     int           `json:"n"`
	OK    bool          `json:"ok"`
	Cases []fCaseRecord `json:"cases"`
}

// bigs returns the centred coefficients of a polynomial in NTT and Montgomery form.
func bigs(rq *ring.Ring, p ring.Poly) []*big.Int {
	q := copyPoly(p)
	rq.IMForm(q, q)
	rq.INTT(q, q)
	out := make([]*big.Int, rq.N())
	for i := range out {
		out[i] = new(big.Int)
	}
	rq.PolyToBigintCentered(q, 1, out)
	return out
}

func fromBigs(rq *ring.Ring, v []*big.Int) ring.Poly {
	p := rq.NewPoly()
	for l, s := range rq.SubRings {
		m := new(big.Int).SetUint64(s.Modulus)
		for i := range v {
			p.Coeffs[l][i] = new(big.Int).Mod(v[i], m).Uint64()
		}
	}
	rq.MForm(p, p)
	rq.NTT(p, p)
	return p
}

func zeros(n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	return out
}

func squares(acc *big.Int, v []*big.Int) {
	s := new(big.Int)
	for i := range v {
		acc.Add(acc, s.Mul(v[i], v[i]))
	}
}

// source is one commitment to the whole batch.
type source[E bignum.Uint[E]] struct {
	v   [][]E
	com []*jindo.Commitment
	op  []*jindo.Opening
}

func copyOp(o *jindo.Opening) *jindo.Opening {
	out := &jindo.Opening{InCommit: copyPolys(o.InCommit)}
	for i := range o.Encode {
		out.Encode = append(out.Encode, copyPolys(o.Encode[i]))
	}
	for i := range o.MLWE {
		out.MLWE = append(out.MLWE, copyPolys(o.MLWE[i]))
	}
	return out
}

type forger[E bignum.Uint[E]] struct {
	par jindo.Parameters
	ck  *jindo.CommitKey
	prv *jindo.Prover[E]
	vrf *jindo.Verifier[E]
	one source[E]
}

// inner recomputes the inner commitments of column j.
func (f *forger[E]) inner(o *jindo.Opening, j int) {
	q := f.par.RingQ()
	mu, nu := f.par.InMSISRank(), f.par.MLWERank()
	for i := range mu {
		s := q.NewPoly()
		for k := range o.Encode[j] {
			q.MulCoeffsMontgomeryThenAdd(f.ck.In[i][k], o.Encode[j][k], s)
		}
		for k := range nu {
			q.MulCoeffsMontgomeryThenAdd(f.ck.MLWE[i][k], o.MLWE[j][k], s)
		}
		q.Add(s, o.MLWE[j][nu+i], s)
		b := bigs(q, s)
		for k := range b {
			b[k].Rsh(b[k], uint(f.par.LogInCutOff()))
		}
		o.InCommit[j*mu+i] = fromBigs(f.par.RingQOut(), b)
	}
}

func (f *forger[E]) outer(o *jindo.Opening) *jindo.Commitment {
	qq := f.par.RingQOut()
	c := &jindo.Commitment{}
	for i := range f.par.OutMSISRank() {
		s := qq.NewPoly()
		for j := range o.InCommit {
			qq.MulCoeffsMontgomeryThenAdd(f.ck.Out[i][j], o.InCommit[j], s)
		}
		b := bigs(qq, s)
		for k := range b {
			b[k].Rsh(b[k], uint(f.par.OutCutOff()))
		}
		c.Value = append(c.Value, fromBigs(qq, b))
	}
	return c
}

// norms returns the two norms the verifier bounds, in thousandths of the bounds.
func (f *forger[E]) norms(com []*jindo.Commitment, pf *jindo.Proof, batch, fold []ring.Poly) (res, dcmp int) {
	q, qq := f.par.RingQ(), f.par.RingQOut()
	mu, nu, cols := f.par.InMSISRank(), f.par.MLWERank(), f.par.Cols()
	sum := new(big.Int)
	for _, p := range pf.Encode {
		squares(sum, bigs(q, p))
	}
	for _, p := range pf.MLWE {
		squares(sum, bigs(q, p))
	}
	shift := func(rq *ring.Ring, log uint64, v []*big.Int) ring.Poly {
		for i := range v {
			v[i] = new(big.Int).Lsh(v[i], uint(log))
		}
		return fromBigs(rq, v)
	}
	for i := range mu {
		s := shift(q, f.par.LogInCutOff(), bigs(qq, pf.InCommit[cols*mu+i]))
		for j := range cols {
			q.MulCoeffsMontgomeryThenAdd(shift(q, f.par.LogInCutOff(), bigs(qq, pf.InCommit[j*mu+i])), fold[j], s)
		}
		for k := range pf.Encode {
			q.MulCoeffsMontgomeryThenSub(f.ck.In[i][k], pf.Encode[k], s)
		}
		for k := range nu {
			q.MulCoeffsMontgomeryThenSub(f.ck.MLWE[i][k], pf.MLWE[k], s)
		}
		q.Sub(s, pf.MLWE[nu+i], s)
		squares(sum, bigs(q, s))
	}
	res = ratio(sum, f.par.ResTwoNm())
	sum = new(big.Int)
	for _, p := range pf.InCommit {
		squares(sum, bigs(qq, p))
	}
	for i := range f.par.OutMSISRank() {
		s := qq.NewPoly()
		if len(com) == 1 {
			s.Copy(com[0].Value[i])
		} else {
			for j := range com {
				qq.MulCoeffsMontgomeryThenAdd(com[j].Value[i], batch[j], s)
			}
		}
		s = shift(qq, f.par.OutCutOff(), bigs(qq, s))
		for j := range pf.InCommit {
			qq.MulCoeffsMontgomeryThenSub(f.ck.Out[i][j], pf.InCommit[j], s)
		}
		squares(sum, bigs(qq, s))
	}
	return res, ratio(sum, f.par.InComDcmpTwoNm())
}

// ratio is the root of s in thousandths of bound, rounded down, at most 10^9.
func ratio(s *big.Int, bound float64) int {
	x := new(big.Float).SetPrec(400).SetInt(s)
	x.Sqrt(x)
	x.Mul(x, big.NewFloat(1000))
	x.Quo(x, big.NewFloat(bound))
	r, _ := x.Int(nil)
	if r.BitLen() > 29 {
		return 1000000000
	}
	return int(r.Int64())
}

// spread returns a polynomial of the given two-norm.
func spread(n, cf int, wide string, norm *big.Float) []*big.Int {
	out := zeros(n)
	lo, hi := 0, n
	switch wide {
	case "one":
		lo, hi = cf%n, cf%n+1
	case "first":
		hi = n / 2
	case "second":
		lo = n / 2
	}
	c := new(big.Float).SetPrec(400).Sqrt(big.NewFloat(float64(hi - lo)))
	c.Quo(norm, c)
	each, _ := c.Int(nil)
	for i := lo; i < hi; i++ {
		if (i*7+cf)%3 == 0 {
			out[i].Neg(each)
		} else {
			out[i].Set(each)
		}
	}
	return out
}

// second makes source 2.
func (f *forger[E]) second(k FCase, batch []ring.Poly) (two source[E], same bool) {
	var z E
	q, qq := f.par.RingQ(), f.par.RingQOut()
	two = source[E]{v: append([][]E{}, f.one.v...), com: append([]*jindo.Commitment{}, f.one.com...), op: append([]*jindo.Opening{}, f.one.op...)}
	cols, slots, mu := f.par.Cols(), f.par.Slots(), f.par.InMSISRank()
	i := k.I
	b := 1.0 // two-norm of the batch challenge
	if batch != nil {
		s := new(big.Int)
		squares(s, bigs(qq, batch[i]))
		b, _ = new(big.Float).Sqrt(new(big.Float).SetInt(s)).Float64()
	}
	size := func(bound float64) *big.Float {
		x := new(big.Float).SetPrec(400).SetFloat64(bound)
		x.Mul(x, big.NewFloat(float64(k.Amt)/100))
		return x.Quo(x, big.NewFloat(b))
	}
	if k.Form == "fresh" {
		w := make([]E, len(two.v[i]))
		for j := range w {
			w[j] = z.New().MustSetRandom()
		}
		two.v[i] = w
		two.com[i], two.op[i] = f.prv.Commit(w)
		return two, len(w) == 0
	}
	o := copyOp(two.op[i])
	two.op[i] = o
	switch k.Form {
	case "cell", "limb", "bigenc", "bigcol":
		col, row := k.Col%(cols+1), k.Row%f.par.Rows()
		if k.Form == "bigcol" {
			col = cols
		}
		d := zeros(q.N())
		at := k.Cf % q.N()
		switch k.Form {
		case "cell":
			d[at].SetInt64(1)
		case "limb":
			d[at].SetUint64(q.SubRings[k.Part%len(q.SubRings)].Modulus)
			row = 0
		default:
			d = spread(q.N(), k.Cf, k.Wide, size(f.par.ResTwoNm()))
		}
		q.Add(o.Encode[col][row], fromBigs(q, d), o.Encode[col][row])
		f.inner(o, col)
		two.com[i] = f.outer(o)
		if col == cols {
			return two, true
		}
		// What the polynomial becomes: the digits of the cells change.
		base := z.New().SetUint64(f.par.Base())
		w := copyVec(two.v[i])
		for len(w) < f.par.Rank() {
			w = append(w, z.New())
		}
		same = true
		for c := range d {
			if d[c].Sign() == 0 {
				continue
			}
			e := z.New().SetBigInt(new(big.Int).Mod(d[c], modulus(z)))
			for range c / slots {
				e.Mul(e, base)
			}
			pos := row*cols*slots + col*slots + c%slots
			if row == f.par.Rows()-1 {
				pos = col*slots + c%slots + 1
			}
			for len(w) <= pos {
				w = append(w, z.New())
			}
			w[pos].Add(w[pos], e)
			same = false
		}
		two.v[i] = w
		return two, same
	case "bigmlwe":
		// the noise of the mask column
		r := k.Row % (f.par.MLWERank() + mu)
		d := spread(q.N(), k.Cf, k.Wide, size(f.par.ResTwoNm()))
		q.Add(o.MLWE[cols][r], fromBigs(q, d), o.MLWE[cols][r])
		f.inner(o, cols)
		two.com[i] = f.outer(o)
	case "bigcut":
		// the same noise, without the commitments
		r := f.par.MLWERank() + k.Row%mu
		d := spread(q.N(), k.Cf, k.Wide, size(f.par.ResTwoNm()))
		q.Add(o.MLWE[cols][r], fromBigs(q, d), o.MLWE[cols][r])
	case "bigin":
		// inner commitments that are as good modulo q
		step := new(big.Int).Rsh(q.Modulus(), uint(f.par.LogInCutOff()))
		st, _ := new(big.Float).SetInt(step).Float64()
		d := spread(q.N(), k.Cf, k.Wide, new(big.Float).Quo(size(f.par.InComDcmpTwoNm()), big.NewFloat(st)))
		for c := range d {
			if d[c].Sign() == 0 && k.Wide == "one" && c == k.Cf%q.N() {
				d[c].SetInt64(1)
			}
			d[c].Mul(d[c], step)
		}
		r := cols*mu + k.Row%mu
		qq.Add(o.InCommit[r], fromBigs(qq, d), o.InCommit[r])
		two.com[i] = f.outer(o)
	case "bigout":
		st := new(big.Float).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(f.par.OutCutOff())))
		d := spread(q.N(), k.Cf, k.Wide, new(big.Float).Quo(size(f.par.InComDcmpTwoNm()), st))
		two.com[i] = copyCom(two.com[i])
		r := k.Row % len(two.com[i].Value)
		qq.Add(two.com[i].Value[r], fromBigs(qq, d), two.com[i].Value[r])
	}
	return two, true
}

// modulus of the field.
func modulus[E bignum.Uint[E]](z E) *big.Int {
	m := z.New().SetInt64(-1).BigInt(new(big.Int))
	return m.Add(m, big.NewInt(1))
}

func runForge[E bignum.Uint[E]](t *FTarget) any {
	var z E
	r := fRecord{Id: t.Id, Field: t.Field, Cap: t.Cap, Lens: t.Lens, Cases: []fCaseRecord{}}
	f := &forger[E]{par: jindo.NewParameters[E](t.Cap, len(t.Lens))}
	crs := []byte("crs-a")
	f.prv, f.vrf, f.ck = jindo.NewProver[E](f.par, crs), jindo.NewVerifier[E](f.par, crs), jindo.NewCommitKey(f.par, crs)
	for _, l := range t.Lens {
		p := make([]E, l)
		for j := range p {
			p[j] = z.New().MustSetRandom()
		}
		f.one.v = append(f.one.v, p)
		c, o := f.prv.Commit(p)
		f.one.com, f.one.op = append(f.one.com, c), append(f.one.op, o)
	}
	r.Cols, r.Rows, r.Exp, r.Slots, r.Limbs = f.par.Cols(), f.par.Rows(), f.par.Exp(), f.par.Slots(), len(f.par.RingQ().SubRings)
	r.In, r.Out, r.Mlwe, r.N = f.par.InMSISRank(), f.par.OutMSISRank(), f.par.MLWERank(), f.par.RingQ().N()
	// The commitments can be recomputed here.
	o := copyOp(f.one.op[0])
	for j := range f.par.Cols() + 1 {
		f.inner(o, j)
	}
	r.OK = true
	for i, p := range f.outer(o).Value {
		r.OK = r.OK && p.Equal(&f.one.com[0].Value[i])
	}
	x := z.New().MustSetRandom()
	q, qq := f.par.RingQ(), f.par.RingQOut()
	cols := f.par.Cols()
	var batch0 []ring.Poly
	if pan, _ := attempt(func() { batch0, _, _ = foldChallenges(f.par, f.prv, x, f.one.v, f.one.com, f.one.op) }); pan {
		r.OK = false
	}
	for _, k := range t.Forge {
		cr := fCaseRecord{FCase: k}
		if r.OK {
			pan, _ := attempt(func() {
				two, same := f.second(k, batch0)
				cr.Same = same
				of := func(n int) *source[E] {
					if n == 2 {
						return &two
					}
					return &f.one
				}
				com := make([]*jindo.Commitment, len(t.Lens))
				in := make([]*jindo.Opening, len(t.Lens))
				for i := range com {
					com[i], in[i] = of(k.C).com[i], of(k.N).op[i]
				}
				vy, resp := append([][]E{}, of(k.Y).v...), of(k.R).op
				part := append([]*jindo.Opening{}, of(k.P).op...)
				switch k.Mix {
				case "outer": // one row of one commitment from source 2
					com[k.I] = copyCom(com[k.I])
					com[k.I].Value[k.Part%len(com[k.I].Value)] = copyPoly(two.com[k.I].Value[k.Part%len(com[k.I].Value)])
				case "inner": // one inner commitment from source 2, and the commitments made from it
					in[k.I] = copyOp(in[k.I])
					in[k.I].InCommit[k.Part%len(in[k.I].InCommit)] = copyPoly(two.op[k.I].InCommit[k.Part%len(in[k.I].InCommit)])
					com[k.I] = f.outer(in[k.I])
				case "partial": // one column from source 2
					p := copyOp(part[k.I])
					p.Encode[k.Part%(cols+1)] = two.op[k.I].Encode[k.Part%(cols+1)]
					part[k.I] = p
				case "claims": // differences that cancel under the challenges of the honest opening
					var w [2]E
					base := z.New().SetUint64(f.par.Base())
					j := (k.I + 1) % len(t.Lens)
					for n, i := range []int{k.I, j} {
						c := bigs(qq, batch0[i])
						w[n] = z.New()
						for d := f.par.Exp() - 1; d >= 0; d-- {
							w[n].Mul(w[n], base)
							w[n].Add(w[n], z.New().SetBigInt(new(big.Int).Mod(c[d*f.par.Slots()], modulus(z))))
						}
					}
					// add w[1]*t to the one and -w[0]*t to the other, as constants
					bump := func(i int, e E) {
						vy[i] = copyVec(vy[i])
						if len(vy[i]) == 0 {
							vy[i] = []E{z.New()}
						}
						vy[i][0].Add(vy[i][0], e)
					}
					s := z.New().SetInt64(int64(k.Amt))
					bump(k.I, z.New().Mul(w[1], s))
					bump(j, z.New().Neg(z.New().Mul(w[0], s)))
				}
				batch, fold, y := foldChallenges(f.par, f.prv, x, vy, com, part)
				_, pf := f.prv.Evaluate(x, vy, com, part)
				// what the proof is made of
				sum := func(rq *ring.Ring, get func(i int) ring.Poly) ring.Poly {
					s := rq.NewPoly()
					for i := range t.Lens {
						if len(t.Lens) == 1 {
							s.Copy(get(i))
						} else if rq == qq {
							rq.MulCoeffsMontgomeryThenAdd(get(i), batch[i], s)
						} else {
							rq.MulCoeffsMontgomeryThenAdd(get(i), fromBigs(q, bigs(qq, batch[i])), s)
						}
					}
					return s
				}
				for n := range pf.InCommit {
					pf.InCommit[n] = sum(qq, func(i int) ring.Poly { return in[i].InCommit[n] })
				}
				response := func(get func(i, j int) ring.Poly) ring.Poly {
					s := sum(q, func(i int) ring.Poly { return get(i, cols) })
					for j := range cols {
						q.MulCoeffsMontgomeryThenAdd(fold[j], sum(q, func(i int) ring.Poly { return get(i, j) }), s)
					}
					return s
				}
				for n := range pf.Encode {
					pf.Encode[n] = response(func(i, j int) ring.Poly { return resp[i].Encode[j][n] })
				}
				for n := range pf.MLWE {
					pf.MLWE[n] = response(func(i, j int) ring.Poly { return resp[i].MLWE[j][n] })
				}
				cr.OK = true
				cr.Res, cr.Dcmp = f.norms(com, pf, batch, fold)
				cr.Pan, _ = attempt(func() { cr.Acc = f.vrf.Verify(x, com, y, pf) })
			})
			if pan {
				cr.OK = false
			}
		}
		r.Cases = append(r.Cases, cr)
	}
	return r
}
