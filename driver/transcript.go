package main

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// TCase alters one message of a transcript, or one byte of a challenge.
type TCase struct {
	K string `json:"k"` // comp, pub, flip; crs, com, point, value, partial, mask
	A Alt    `json:"a"`
}

type TTarget struct {
	Target
	TCases []TCase `json:"tcases"`
}

type tCaseRecord struct {
	K   string `json:"k"`
	A   Alt    `json:"a"`
	Cls []int  `json:"cls"` // per challenge: equal values have equal numbers, 0: not derived
	Acc bool   `json:"acc"`
	Pan bool   `json:"pan"`
}

type tRecord struct {
	Id    int           `json:"id"`
	Kind  string        `json:"kind"`
	Field string        `json:"field"`
	Circ  *Circ         `json:"circ"`
	Comps []compInfo    `json:"comps"`
	Names []string      `json:"names"` // challenges
	Idx   []int         `json:"idx"`
	Ccls  [][]int       `json:"ccls"` // values of the components, per source
	Base  []bool        `json:"base"` // sources that verify
	Chal  [][]int       `json:"chal"` // values of the challenges, per source
	Cases []tCaseRecord `json:"cases"`
	// openings only: how the challenges look as ring elements
	Forms  []formInfo `json:"forms"`
	Spread []int      `json:"spread"` // over all of them: smallest, largest and number of different coefficients
	Bound  int        `json:"bound"`
	OK     bool       `json:"ok"`
}

type formInfo struct {
	Off int `json:"off"` // coefficients outside the multiples of the slot count that are not zero
	Min int `json:"min"`
	Max int `json:"max"`
}

var chalNames = []string{"projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint"}

// classes numbers values.
type classes map[string]int

func (c classes) of(kind string, b []byte) int {
	if b == nil {
		return 0
	}
	h := sha256.Sum256(append([]byte(kind+":"), b...))
	if _, ok := c[string(h[:])]; !ok {
		c[string(h[:])] = len(c) + 1
	}
	return c[string(h[:])]
}

// observe runs f and returns the challenges derived meanwhile.
func observe(program func(string, []byte) []byte, f func()) map[string][]byte {
	r := &fiatshamir.Recorder{Program: program}
	fiatshamir.Record(r)
	defer fiatshamir.Record(nil)
	f()
	out := map[string][]byte{}
	for _, e := range r.Events {
		if e.Op == "challenge" {
			out[e.Name] = e.Data
		}
	}
	return out
}

func runTranscript[E bignum.Uint[E]](t *TTarget) any {
	r := tRecord{Id: t.Id, Kind: t.Kind, Field: t.Field, Circ: t.Circ, Comps: []compInfo{}, Names: []string{}, Idx: []int{}, Ccls: [][]int{}, Base: []bool{},
		Chal: [][]int{}, Cases: []tCaseRecord{}, Forms: []formInfo{}, Spread: []int{}}
	if t.Circ == nil {
		r.Circ = &Circ{Cons: []Con{}, Mats: [][][]int64{}}
	}
	attempt(func() {
		if t.Kind == "circuit" {
			circuitTranscript[E](t, &r)
		} else {
			openingTranscript[E](t, &r)
		}
	})
	return r
}

func circuitTranscript[E bignum.Uint[E]](t *TTarget, r *tRecord) {
	def := newDefiner[E](t.Circ)
	prv, vrf, err := buckler.Compile(t.Circ.N, newInstance(t.Circ.Shape, t.Circ.NP, t.Circ.NW, def), []byte("crs-a"))
	if err != nil {
		return
	}
	public := fill[E](t.Asg, false)
	cl := classes{}
	r.Names = chalNames
	for range chalNames {
		r.Idx = append(r.Idx, 0)
	}
	classify := func(m map[string][]byte) []int {
		var out []int
		for _, n := range chalNames {
			out = append(out, cl.of("chal", m[n]))
		}
		return out
	}
	verify := func(in instance[E], a *artefact[E]) bool {
		return vrf.Verify(in, &buckler.Proof[E]{Witness: a.com, LinCheckMaskSum: a.lin, SumCheckMaskSum: a.sum, Evals: a.evals, EvalProof: a.open})
	}
	var src []*artefact[E]
	var base map[string][]byte
	for i := range 2 {
		pf, err := prv.Prove(fill[E](t.Asg, true))
		if err != nil {
			return
		}
		a := &artefact[E]{com: pf.Witness, evals: pf.Evals, lin: pf.LinCheckMaskSum, sum: pf.SumCheckMaskSum, open: pf.EvalProof}
		src = append(src, a)
		var row []int
		for _, c := range a.comps(prv.JindoParams) {
			row = append(row, cl.of("comp", []byte(c.bytes())))
			if i == 0 {
				r.Comps = append(r.Comps, compInfo{G: c.g, I: c.i, Kind: c.kind(), Limbs: c.limbs()})
			}
		}
		r.Ccls = append(r.Ccls, row)
		ok := false
		m := observe(nil, func() { ok = verify(public, a.copy()) })
		if i == 0 {
			base = m
		}
		r.Base = append(r.Base, ok)
		r.Chal = append(r.Chal, classify(m))
	}
	r.OK = true
	for _, c := range t.TCases {
		a := src[0].copy()
		in := public
		var program func(string, []byte) []byte
		switch c.K {
		case "comp":
			a.comps(prv.JindoParams)[c.A.A-1].bump(c.A)
		case "pub":
			in = fill[E](t.Asg, false)
			pub, _ := in.slots()
			e := (*pub[c.A.A-1])[c.A.Idx]
			d := new(big.Int).Lsh(big.NewInt(c.A.D), uint(c.A.B))
			by := func(k int64) E {
				x := new(big.Int).Mul(d, big.NewInt(k))
				return e.New().SetBigInt(x.Mod(x, fieldP[E]()))
			}
			e.Add(e, by(1))
			if n := len(*pub[c.A.A-1]); c.A.Limb > 0 && n > 1 {
				o := (*pub[c.A.A-1])[(c.A.Idx+1)%n]
				o.Add(o, by(int64(-c.A.Limb)))
			}
		case "flip":
			program = func(name string, b []byte) []byte {
				v := append([]byte{}, base[name]...)
				if name == c.A.G && len(v) > 0 {
					v[c.A.Idx%len(v)] ^= byte(c.A.D)
				}
				return v
			}
		}
		cr := tCaseRecord{K: c.K, A: c.A}
		m := observe(program, func() { cr.Pan, _ = attempt(func() { cr.Acc = verify(in, a) }) })
		cr.Cls = classify(m)
		r.Cases = append(r.Cases, cr)
	}
}

// coefficients of a challenge, centred.
func centred(rq *ring.Ring, p ring.Poly) []int64 {
	q := copyPoly(p)
	rq.IMForm(q, q)
	rq.INTT(q, q)
	big0 := make([]*big.Int, rq.N())
	for i := range big0 {
		big0[i] = new(big.Int)
	}
	rq.PolyToBigintCentered(q, 1, big0)
	out := make([]int64, rq.N())
	for i := range out {
		out[i] = big0[i].Int64()
		if !big0[i].IsInt64() || out[i] > 1<<30 || out[i] < -(1<<30) {
			out[i] = 1 << 30
		}
	}
	return out
}

func one(rq *ring.Ring) ring.Poly {
	p := rq.NewPoly()
	for l := range p.Coeffs {
		p.Coeffs[l][0] = 1
	}
	rq.MForm(p, p)
	rq.NTT(p, p)
	return p
}

// foldChallenges recovers the challenges of an opening from the prover's answers: the response is linear in the
// opening, and everything the challenges depend on (commitments, point, values, partial openings) is kept fixed.
// The first list are the batching challenges, the second the folding challenges (times the first batching challenge).
func foldChallenges[E bignum.Uint[E]](par jindo.Parameters, prv *jindo.Prover[E], x E, v [][]E, com []*jindo.Commitment, enc []*jindo.Opening) (batch, fold []ring.Poly, evals []E) {
	q, qq := par.RingQ(), par.RingQOut()
	blank := func() []*jindo.Opening {
		var out []*jindo.Opening
		for i := range enc {
			o := jindo.NewOpening(par)
			for j := range o.Encode {
				for k := range o.Encode[j] {
					o.Encode[j][k].Copy(enc[i].Encode[j][k])
				}
			}
			out = append(out, o)
		}
		return out
	}
	if len(v) > 1 {
		for i := range v {
			o := blank()
			o[i].InCommit[0] = one(qq)
			var pf *jindo.Proof
			evals, pf = prv.Evaluate(x, v, com, o)
			batch = append(batch, pf.InCommit[0])
		}
	}
	n := len(enc[0].MLWE) - 1
	w := len(enc[0].MLWE[0])
	for j := 0; j < n; j += w {
		o := blank()
		for k := 0; k < w && j+k < n; k++ {
			o[0].MLWE[j+k][k] = one(q)
		}
		var pf *jindo.Proof
		evals, pf = prv.Evaluate(x, v, com, o)
		for k := 0; k < w && j+k < n; k++ {
			fold = append(fold, pf.MLWE[k])
		}
	}
	if len(batch) > 0 {
		if inv, ok := inverse(q, centred(qq, batch[0])); ok {
			for i := range fold {
				q.MulCoeffsMontgomery(fold[i], inv, fold[i])
			}
		}
	}
	return
}

// inverse of the ring element with the given coefficients, if it has one.
func inverse(rq *ring.Ring, c []int64) (ring.Poly, bool) {
	p := rq.NewPoly()
	for l, s := range rq.SubRings {
		m := int64(s.Modulus)
		for i := range c {
			p.Coeffs[l][i] = uint64((c[i]%m + m) % m)
		}
	}
	rq.NTT(p, p)
	for l, s := range rq.SubRings {
		m := new(big.Int).SetUint64(s.Modulus)
		for i := range p.Coeffs[l] {
			x := new(big.Int).SetUint64(p.Coeffs[l][i])
			if x.Sign() == 0 {
				return p, false
			}
			p.Coeffs[l][i] = x.ModInverse(x, m).Uint64()
		}
	}
	rq.MForm(p, p)
	return p, true
}

func openingTranscript[E bignum.Uint[E]](t *TTarget, r *tRecord) {
	var z E
	par := jindo.NewParameters[E](t.Cap, len(t.Lens))
	q, qq := par.RingQ(), par.RingQOut()
	prv := [2]*jindo.Prover[E]{jindo.NewProver[E](par, []byte("crs-a")), jindo.NewProver[E](par, []byte("crs-b"))}
	cl := classes{}
	// Constant polynomials: their values do not depend on the point.
	var v [][]E
	var com []*jindo.Commitment
	var enc []*jindo.Opening
	for range t.Lens {
		p := []E{z.New().MustSetRandom()}
		c, _ := prv[0].Commit(p)
		v, com = append(v, p), append(com, c)
		enc = append(enc, jindo.NewOpening(par)) // empty encodings: the partial openings do not depend on the point
	}
	x := z.New().MustSetRandom()
	polyBytes := func(p ring.Poly) []byte {
		var b bytes.Buffer
		polysBytes(&b, []ring.Poly{p})
		return b.Bytes()
	}
	coefs := map[int64]bool{}
	var lo, hi int64
	seen := 0
	slots := par.Slots()
	classify := func(batch, fold []ring.Poly, form bool) []int {
		var out []int
		for _, p := range batch {
			out = append(out, cl.of("q", polyBytes(p)))
		}
		for _, p := range fold {
			out = append(out, cl.of("q", polyBytes(p)))
		}
		if !form {
			return out
		}
		add := func(rq *ring.Ring, p ring.Poly) {
			f := formInfo{}
			for i, c := range centred(rq, p) {
				if i%slots != 0 && c != 0 {
					f.Off++
				}
				if c < int64(f.Min) {
					f.Min = int(c)
				}
				if c > int64(f.Max) {
					f.Max = int(c)
				}
				if i%slots == 0 {
					coefs[c] = true
					seen++
				}
			}
			lo, hi = min(lo, int64(f.Min)), max(hi, int64(f.Max))
			r.Forms = append(r.Forms, f)
		}
		for _, p := range batch {
			add(qq, p)
		}
		for _, p := range fold {
			add(q, p)
		}
		return out
	}
	b, f, _ := foldChallenges(par, prv[0], x, v, com, enc)
	for i := range b {
		r.Names, r.Idx = append(r.Names, "batch"), append(r.Idx, i)
	}
	for i := range f {
		r.Names, r.Idx = append(r.Names, "fold"), append(r.Idx, i)
	}
	r.Chal = append(r.Chal, classify(b, f, true))
	r.Base, r.OK, r.Bound = []bool{true}, true, int(par.ChallengeBound())
	for _, c := range t.TCases {
		p, xx := prv[0], x.New().Set(x)
		vv := make([][]E, len(v))
		cc := make([]*jindo.Commitment, len(v))
		ee := make([]*jindo.Opening, len(v))
		for i := range v {
			vv[i], cc[i], ee[i] = copyVec(v[i]), copyCom(com[i]), enc[i]
		}
		i := c.A.A % len(v)
		mark := func(col int) {
			o := jindo.NewOpening(par)
			m := q.NewPoly()
			for l := range m.Coeffs {
				m.Coeffs[l][c.A.Idx%q.N()] = uint64(c.A.D)
			}
			q.MForm(m, m)
			q.NTT(m, m)
			o.Encode[col][0] = m
			ee[i] = o
		}
		switch c.K {
		case "crs":
			p = prv[1]
		case "com":
			pp := cc[i].Value[c.A.B%len(cc[i].Value)]
			comp[E]{g: "com", poly: &pp, ring: qq}.bump(c.A)
		case "point":
			xx.Add(xx, z.New().SetInt64(c.A.D))
		case "value":
			vv[i][0].Add(vv[i][0], z.New().SetInt64(c.A.D))
		case "partial":
			mark(c.A.B % (len(enc[0].Encode) - 1))
		case "mask":
			mark(len(enc[0].Encode) - 1)
		}
		cr := tCaseRecord{K: c.K, A: c.A, Cls: []int{}}
		cr.Pan, _ = attempt(func() {
			b, f, _ := foldChallenges(par, p, xx, vv, cc, ee)
			cr.Cls = classify(b, f, true)
		})
		r.Cases = append(r.Cases, cr)
	}
	r.Spread = []int{int(lo), int(hi), len(coefs), seen}
}
