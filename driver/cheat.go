package main

import (
	"bytes"
	"crypto/sha256"
	"math/bits"
	"slices"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// Deceit is what a prover of its own does differently from the library's.
// The discrepancy is what the remainder of the check W is off by.
type Deceit struct {
	A     int    `json:"a"`     // assignment, from 1
	W     string `json:"w"`     // the check: none, arith, lin, sum
	Place string `json:"place"` // where the discrepancy goes: none, quo, extra, latesum, latemask, point
	Part  string `json:"part"`  // extra: how the shifted remainder is committed; point: what is fitted
	Keep  bool   `json:"keep"`  // what is changed late is kept out of the challenges
}

type cheatRecord struct {
	Deceit
	OK  bool `json:"ok"`  // it could be put together
	Acc bool `json:"acc"` // accepted
	Pan bool `json:"pan"`
}

type CheatTarget struct {
	Id     int      `json:"id"`
	Field  string   `json:"field"`
	Circ   Circ     `json:"circ"`
	Asgs   []Assign `json:"asgs"`
	Deceit []Deceit `json:"deceit"`
}

type cheatTargetRecord struct {
	Id     int           `json:"id"`
	Field  string        `json:"field"`
	Circ   Circ          `json:"circ"`
	Asgs   []Assign      `json:"asgs"`
	Rank   int           `json:"rank"`
	Rows   int           `json:"rows"`
	Honest []bool        `json:"honest"` // per assignment: the own prover without deceit is accepted
	Cases  []cheatRecord `json:"cases"`
}

// polynomial arithmetic on coefficient slices, lowest first
type polys[E bignum.Uint[E]] struct{}

func (polys[E]) zero(n int) []E {
	var z E
	out := make([]E, n)
	for i := range out {
		out[i] = z.New()
	}
	return out
}
func (s polys[E]) add(a, b []E) []E {
	out := s.zero(max(len(a), len(b)))
	for i := range a {
		out[i].Set(a[i])
	}
	for i := range b {
		out[i].Add(out[i], b[i])
	}
	return out
}
func (s polys[E]) scale(c E, a []E) []E {
	out := s.zero(len(a))
	for i := range a {
		out[i].Mul(a[i], c)
	}
	return out
}
func (s polys[E]) mul(a, b []E) []E {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	var z E
	out := s.zero(len(a) + len(b) - 1)
	t := z.New()
	for i := range a {
		for j := range b {
			t.Mul(a[i], b[j])
			out[i+j].Add(out[i+j], t)
		}
	}
	return out
}
func (s polys[E]) shift(a []E, k int) []E { return append(s.zero(k), a...) }

// divide divides by X^n - 1.
func (s polys[E]) divide(a []E, n int) (quo, rem []E) {
	quo, rem = s.zero(max(len(a)-n, 0)), s.add(a, s.zero(n))
	for i := len(rem) - 1; i >= n; i-- {
		quo[i-n].Set(rem[i])
		rem[i-n].Add(rem[i-n], rem[i])
	}
	return quo, rem[:n]
}
func (s polys[E]) trim(a []E) []E {
	var z E
	zero := z.New()
	for len(a) > 0 && a[len(a)-1].Cmp(zero) == 0 {
		a = a[:len(a)-1]
	}
	return a
}

// cheater proves circuits without norm constraints, written from the protocol and not from the library's prover.
type cheater[E bignum.Uint[E]] struct {
	polys[E]
	circ *Circ
	def  *definer[E]
	ntt  *bigpoly.CyclicTransformer[E]
	pcs  *forger[E]
	vrf  *buckler.Verifier[E]
}

// commit commits to any polynomial that an opening has room for, also to those the library refuses.
func (c *cheater[E]) commit(p []E) (com *jindo.Commitment, op *jindo.Opening, ok bool) {
	var z E
	par := c.pcs.par
	p = c.trim(p)
	if len(p) <= par.Rank() {
		com, op = c.pcs.prv.Commit(p)
		return com, op, true
	}
	// The last row is shifted by one, and its last cell is free.
	if len(p) != par.Rank()+1 || par.Cols()*par.Slots() != par.Rank() {
		return nil, nil, false
	}
	_, op = c.pcs.prv.Commit(p[:par.Rank()])
	d := zeros(par.RingQ().N())
	v := z.New().Set(p[par.Rank()])
	limbs := make([]uint64, v.Limb())
	v.Slice(limbs)
	for j := range par.Exp() {
		at := j*par.Slots() + par.Slots() - 1
		if j == par.Exp()-1 {
			d[at].SetUint64(limbs[0])
		} else {
			d[at].SetUint64(divSmall(limbs, par.Base()))
		}
	}
	q := par.RingQ()
	col, row := par.Cols()-1, par.Rows()-1
	q.Add(op.Encode[col][row], fromBigs(q, d), op.Encode[col][row])
	c.pcs.inner(op, col)
	return c.pcs.outer(op), op, true
}

// batched evaluates the terms of constraints of one type and batches them.
func (c *cheater[E]) batched(t string, beta E, pub, wit [][]E) []E {
	var z E
	var out []E
	for _, k := range c.circ.Cons {
		if k.T != t {
			continue
		}
		for _, m := range k.Terms {
			term := []E{z.New().SetBigInt(k.coeff(m.C, fieldP[E]()))}
			if m.P > 0 {
				term = c.mul(term, pub[m.P-1])
			}
			for _, w := range m.W {
				term = c.mul(term, wit[w-1])
			}
			out = c.add(out, term)
		}
		out = c.scale(beta, out)
	}
	return out
}

// prove returns a proof for the flat assignment a with deceit k.
func (c *cheater[E]) prove(a *Assign, k Deceit) (*buckler.Proof[E], bool) {
	var z E
	n := c.circ.N
	par := c.pcs.par
	full := par.Rank()
	oracle := fiatshamir.NewTranscript(sha256.New(), chalNames...)
	ok := true
	var coms []*jindo.Commitment
	var ops []*jindo.Opening
	var vals [][]E
	bind := func(name string, com *jindo.Commitment) {
		var buf bytes.Buffer
		com.WriteRawTo(&buf)
		oracle.Bind(name, buf.Bytes())
	}
	late := func(w, place string, parts ...string) bool {
		return k.Keep && k.W == w && k.Place == place && (len(parts) == 0 || slices.Contains(parts, k.Part))
	}
	put := func(p []E) *jindo.Commitment {
		com, op, good := c.commit(p)
		if !good {
			ok = false
			com, op, _ = c.commit(nil)
		}
		coms, ops, vals = append(coms, com), append(ops, op), append(vals, p)
		return com
	}
	redo := func(i int, p []E) {
		com, op, good := c.commit(p)
		ok = ok && good
		if good {
			coms[i], ops[i], vals[i] = com, op, p
		}
	}
	chal := func(name string) E {
		b, err := oracle.ComputeChallenge(name)
		ok = ok && err == nil
		return z.New().SetBytes(b)
	}
	encode := func(v []E) []E {
		out := c.zero(n)
		c.ntt.InvNTTTo(out, v)
		return out
	}
	random := func(k int) []E {
		out := c.zero(k)
		for i := range out {
			out[i].MustSetRandom()
		}
		return out
	}

	var pub, wit [][]E
	for i := range a.Pub {
		v := realise[E](a.Pub[i])
		var buf bytes.Buffer
		for j := range v {
			buf.Write(v[j].Marshal())
		}
		oracle.Bind("projConst", buf.Bytes())
		pub = append(pub, encode(v))
	}
	var raw [][]E
	for i := range a.Wit {
		v := realise[E](a.Wit[i])
		raw = append(raw, v)
		p := append(encode(v), z.New().MustSetRandom())
		p[0].Sub(p[0], p[n])
		wit = append(wit, p)
		bind("projConst", put(p))
	}
	chal("projConst")

	has := map[string]int{}
	degree := map[string]int{"sum": n}
	for _, k := range c.circ.Cons {
		has[k.T]++
		if k.T == "lin" {
			continue
		}
		for _, t := range k.Terms {
			d := len(t.W) * n
			if t.P > 0 {
				d += n - 1
			}
			degree[k.T] = max(degree[k.T], d+1)
		}
	}
	type check struct {
		mask []E
		sum  E
		at   int
	}
	masks := map[string]*check{}
	for _, w := range []string{"lin", "sum"} {
		if has[w] == 0 {
			continue
		}
		length := 2 * n
		if w == "sum" {
			length = degree["sum"]
		}
		m := &check{mask: random(length), at: len(coms)}
		_, rem := c.divide(m.mask, n)
		m.sum = z.New().Set(rem[0])
		masks[w] = m
		if com := put(m.mask); !late(w, "latemask") {
			bind("arithBatchConst", com)
		}
		if !late(w, "latesum") {
			oracle.Bind("arithBatchConst", m.sum.Marshal())
		}
	}

	// what the verifier compares, for fitting it at the evaluation point
	type identity struct {
		left        []E
		sum         E
		quo, lo, hi int
	}
	ids := map[string]*identity{}
	beta := chal("arithBatchConst")
	if has["arith"] > 0 {
		left := c.batched("arith", beta, pub, wit)
		quo, _ := c.divide(left, n)
		ids["arith"] = &identity{left: left, sum: z.New(), quo: len(coms), lo: -1, hi: -1}
		if com := put(quo); !late("arith", "point") {
			bind("evalPoint", com)
		}
	}

	sums := map[string]E{}
	finish := func(w string, left []E, declared E) {
		m := masks[w]
		left = c.add(left, m.mask)
		quo, rem := c.divide(left, n)
		off := z.New().Sub(rem[0], m.sum)
		off.Sub(off, declared)
		lo := append([]E{}, rem[1:]...)
		shift := full - (n - 1)
		place := k.Place
		if k.W != w {
			place = "none"
		}
		var hi []E
		sums[w] = z.New().Set(m.sum)
		switch place {
		case "quo":
			quo = c.add(quo, []E{z.New().Neg(off)})
		case "latesum":
			sums[w].Add(sums[w], off)
		case "latemask":
			mask := c.add(m.mask, []E{z.New().Neg(off)})
			redo(m.at, mask)
			left = c.add(left, []E{z.New().Neg(off)})
		case "extra":
			quo = c.add(quo, []E{z.New().Neg(off)})
			lo = append(lo, z.New().Set(off))
			switch k.Part {
			case "full":
				hi = c.shift(lo, shift)
			case "trunc":
				hi = c.shift(lo[:n-1], shift)
			case "short":
				hi = c.shift(lo, shift-1)
			case "same":
				hi = append([]E{}, lo...)
			case "none":
				hi = c.zero(1)
			}
		}
		if hi == nil {
			hi = c.shift(lo, shift)
		}
		id := &identity{left: left, sum: z.New().Add(sums[w], declared), quo: len(coms), lo: len(coms) + 1, hi: len(coms) + 2}
		ids[w] = id
		if com := put(quo); !late(w, "point", "quo") {
			bind("evalPoint", com)
		}
		if com := put(lo); !late(w, "point", "lo", "lohi") {
			bind("evalPoint", com)
		}
		if com := put(hi); !late(w, "point", "lohi") {
			bind("evalPoint", com)
		}
	}

	linBeta, gamma := chal("linCheckBatchConst"), chal("linCheckConst")
	if has["lin"] > 0 {
		vec := c.zero(n)
		vec[0].SetInt64(1)
		for i := 1; i < n; i++ {
			vec[i].Mul(vec[i-1], gamma)
		}
		rowL := encode(vec)
		var order [][2]int
		for _, k := range c.circ.Cons {
			seen := k.T != "lin"
			for _, o := range order {
				seen = seen || o == [2]int{k.M, k.K}
			}
			if !seen {
				order = append(order, [2]int{k.M, k.K})
			}
		}
		var left []E
		for _, o := range order {
			tr := c.zero(n)
			in := c.zero(n)
			for i := range in {
				in[i].Set(vec[i])
			}
			c.def.checker(o[0], o[1]).TransposeTo(tr, in)
			rowTr := encode(tr)
			for _, k := range c.circ.Cons {
				if k.T != "lin" || [2]int{k.M, k.K} != o {
					continue
				}
				term := c.mul(rowTr, wit[k.Y-1])
				term = c.add(term, c.scale(z.New().SetInt64(-1), c.mul(rowL, wit[k.X-1])))
				left = c.add(c.scale(linBeta, left), term)
			}
		}
		finish("lin", c.scale(linBeta, left), z.New())
	}

	sumBeta := chal("sumCheckBatchConst")
	if has["sum"] > 0 {
		left := c.scale(sumBeta, c.batched("sum", sumBeta, pub, wit))
		declared := z.New()
		p := fieldP[E]()
		for _, k := range c.circ.Cons {
			if k.T == "sum" {
				b := k.sum(p)
				declared.Add(declared, z.New().SetBigInt(b.Mod(b, p)))
				declared.Mul(declared, sumBeta)
			}
		}
		declared.Mul(declared, sumBeta)
		declared.Mul(declared, z.New().Inverse(z.New().SetUint64(uint64(n))))
		finish("sum", left, declared)
	}

	x := chal("evalPoint")
	if k.Place == "point" && ids[k.W] != nil {
		// fit one polynomial to the identity at the point
		id := ids[k.W]
		at := func(i int) E { return (&bigpoly.Poly[E]{Coeffs: pad(c.polys, vals[i])}).Evaluate(x) }
		left := (&bigpoly.Poly[E]{Coeffs: pad(c.polys, id.left)}).Evaluate(x)
		left.Sub(left, id.sum)
		van := z.New().Sub(bignum.Exp(x, uint64(n)), z.New().SetInt64(1))
		switch {
		case k.Part == "quo" || id.lo < 0:
			if id.lo >= 0 {
				left.Sub(left, z.New().Mul(x, at(id.lo)))
			}
			redo(id.quo, []E{z.New().Mul(left, z.New().Inverse(van))})
		default:
			left.Sub(left, z.New().Mul(van, at(id.quo)))
			lo := z.New().Mul(left, z.New().Inverse(x))
			redo(id.lo, []E{lo})
			if k.Part == "lohi" {
				redo(id.hi, []E{z.New().Mul(lo, bignum.Exp(x, uint64(full-(n-1))))})
			}
		}
	}
	if !ok {
		return nil, false
	}

	for i := range vals {
		vals[i] = c.trim(vals[i])
		if len(vals[i]) > full {
			top := z.New().Mul(vals[i][full], bignum.Exp(x, uint64(full)))
			vals[i] = append([]E{top.Add(top, vals[i][0])}, vals[i][1:full]...)
		}
	}
	evals, open := c.pcs.prv.Evaluate(x, vals, coms, ops)
	pf := &buckler.Proof[E]{Witness: coms, Evals: evals, EvalProof: open}
	if has["lin"] > 0 {
		pf.LinCheckMaskSum = sums["lin"]
	}
	if has["sum"] > 0 {
		pf.SumCheckMaskSum = sums["sum"]
	}
	return pf, true
}

func pad[E bignum.Uint[E]](s polys[E], a []E) []E {
	if len(a) == 0 {
		return s.zero(1)
	}
	return a
}

// divSmall divides x by y and returns the remainder.
func divSmall(x []uint64, y uint64) uint64 {
	var r uint64
	for i := len(x) - 1; i >= 0; i-- {
		x[i], r = bits.Div64(r, x[i], y)
	}
	return r
}

func runCheat[E bignum.Uint[E]](t *CheatTarget) any {
	r := cheatTargetRecord{Id: t.Id, Field: t.Field, Circ: t.Circ, Asgs: t.Asgs, Honest: make([]bool, len(t.Asgs)), Cases: []cheatRecord{}}
	crs := []byte("crs-a")
	def := newDefiner[E](&t.Circ)
	prv, vrf, err := buckler.Compile(t.Circ.N, newInstance("flat", t.Circ.NP, t.Circ.NW, def), crs)
	if err != nil {
		return r
	}
	par := prv.JindoParams
	r.Rank, r.Rows = par.Rank(), par.Rows()
	c := &cheater[E]{circ: &t.Circ, def: newDefiner[E](&t.Circ), ntt: bigpoly.NewCyclicTransformer[E](t.Circ.N), vrf: vrf,
		pcs: &forger[E]{par: par, prv: jindo.NewProver[E](par, crs), ck: jindo.NewCommitKey(par, crs)}}
	try := func(k Deceit) (rec cheatRecord) {
		rec.Deceit = k
		a := t.Asgs[k.A-1]
		a.Shape = "flat"
		var pf *buckler.Proof[E]
		if pan, _ := attempt(func() { pf, rec.OK = c.prove(&a, k) }); pan {
			rec.OK = false
		}
		if rec.OK {
			in := fill[E](&a, false)
			rec.Pan, _ = attempt(func() { rec.Acc = vrf.Verify(in, pf) })
		}
		return
	}
	for i := range t.Asgs {
		rec := try(Deceit{A: i + 1, W: "none", Place: "none"})
		r.Honest[i] = rec.OK && rec.Acc
	}
	for _, k := range t.Deceit {
		r.Cases = append(r.Cases, try(k))
	}
	return r
}
