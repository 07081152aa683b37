package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/big"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

type BTarget struct {
	Target
	What string `json:"what"` // rank, fresh, noise
	Seed uint64 `json:"seed"`
}

type noiseRow struct {
	G     string `json:"g"`     // ecd, blind, mask, maskblind, mlwe, maskmlwe
	Ratio int    `json:"ratio"` // observed standard deviation in thousandths of the declared one
	Mean  int    `json:"mean"`  // in thousandths of the declared standard deviation
	Rep   int    `json:"rep"`   // repeated stretches
	N     int    `json:"n"`
}

type bRecord struct {
	Id    int    `json:"id"`
	Kind  string `json:"kind"`
	What  string `json:"what"`
	Field string `json:"field"`
	P     int    `json:"p"`
	Circ  any    `json:"circ"`
	Cap   int    `json:"cap"`
	Lens  []int  `json:"lens"`
	OK    bool   `json:"ok"`
	// rank: per trial, one row per direction; circuit: the evaluations, then the mask sums
	Evals int       `json:"evals"`
	Lin   bool      `json:"lin"`
	Sum   bool      `json:"sum"`
	Mats  [][][]int `json:"mats"`
	// rank of an opening: the weights of the partial values in the claimed values
	Cells int   `json:"cells"`
	Slots int   `json:"slots"`
	Rows  []int `json:"rows"` // rows of the matrix that hold something of the vector or its blinding
	Right []int `json:"right"`
	// fresh: values of the parts of two proofs
	Parts []string   `json:"parts"`
	Cls   [][]int    `json:"cls"`
	Zero  []bool     `json:"zero"`
	Noise []noiseRow `json:"noise"`
}

// challengeProgram replaces every challenge by fixed bytes.
func challengeProgram(seed uint64) func(string, []byte) []byte {
	return func(name string, v []byte) []byte {
		var out []byte
		h := seed
		for _, c := range []byte(name) {
			h = splitmix(h ^ uint64(c))
		}
		for len(out) < len(v) {
			h = splitmix(h)
			out = binary.LittleEndian.AppendUint64(out, h)
		}
		return out[:len(v)]
	}
}

func programmed(seed uint64, f func()) {
	r := &fiatshamir.Recorder{Program: challengeProgram(seed)}
	fiatshamir.RecordAll(r)
	fiatshamir.Record(r)
	defer fiatshamir.RecordAll(nil)
	defer fiatshamir.Record(nil)
	f()
}

func newB(t *BTarget) bRecord {
	r := bRecord{Id: t.Id, Kind: t.Kind, What: t.What, Field: t.Field, Cap: t.Cap, Lens: t.Lens, Mats: [][][]int{}, Right: []int{}, Rows: []int{}, Parts: []string{},
		Cls: [][]int{}, Zero: []bool{}, Noise: []noiseRow{}, Circ: t.Circ}
	if t.Circ == nil {
		r.Circ = &Circ{Cons: []Con{}, Mats: [][][]int64{}}
	}
	if r.Lens == nil {
		r.Lens = []int{}
	}
	return r
}

// rankCircuit records how what a circuit proof reveals changes with the prover's draws.
func rankCircuit[M Modulus](t *BTarget) any {
	r := newB(t)
	var m M
	r.P = int(m.P())
	attempt(func() {
		def := newDefiner[*Dual[M]](t.Circ)
		prv, _, err := buckler.Compile(t.Circ.N, newInstance(t.Circ.Shape, t.Circ.NP, t.Circ.NW, def), []byte("crs-a"))
		if err != nil {
			return
		}
		for trial := range 3 {
			var mat [][]int
			want := 1
			for run := 0; run < want; run++ {
				tape = &Tape{Seed: splitmix(t.Seed + uint64(trial)), Run: uint64(run + 1), Bump: -1}
				var pf *buckler.Proof[*Dual[M]]
				programmed(splitmix(t.Seed^uint64(trial+77)), func() { pf, err = prv.Prove(fill[*Dual[M]](t.Asg, true)) })
				tape = nil
				if err != nil {
					return
				}
				var row []int
				for _, e := range pf.Evals {
					row = append(row, int(e.d))
				}
				r.Evals, r.Lin, r.Sum = len(pf.Evals), pf.LinCheckMaskSum != nil, pf.SumCheckMaskSum != nil
				if r.Lin {
					row = append(row, int(pf.LinCheckMaskSum.d))
				}
				if r.Sum {
					row = append(row, int(pf.SumCheckMaskSum.d))
				}
				mat = append(mat, row)
				want = len(row) + 1
			}
			r.Mats = append(r.Mats, mat)
		}
		r.OK = true
	})
	tape = nil
	return r
}

// rankOpening records how the partial openings change with each draw of a commitment.
func rankOpening[M Modulus](t *BTarget) any {
	r := newB(t)
	var z *Dual[M]
	var m M
	r.P = int(m.P())
	attempt(func() {
		par := jindo.NewParameters[*Dual[M]](t.Cap, len(t.Lens))
		prv := jindo.NewProver[*Dual[M]](par, []byte("crs-a"))
		ecd := &decoder[*Dual[M]]{par: par}
		cells := par.Cols() * par.Slots()
		r.Cells, r.Slots = cells, par.Slots()
		x := z.New().SetUint64(2 + splitmix(t.Seed)%(m.P()-3))
		w := z.New().SetUint64(1)
		for range cells {
			r.Right = append(r.Right, int(w.v))
			w = z.New().Mul(w, x)
		}
		var v [][]*Dual[M]
		var com []*jindo.Commitment
		var enc []*jindo.Opening
		for i, l := range t.Lens {
			p := make([]*Dual[M], l)
			for j := range p {
				p[j] = z.New().SetUint64(splitmix(t.Seed + uint64(i*1000003+j)))
			}
			c, o := prv.Commit(p)
			v, com, enc = append(v, p), append(com, c), append(enc, o)
		}
		which := int(t.Seed % uint64(len(v)))
		// The challenges stay the same: they depend on com, not on the openings.
		for j := range par.Rows() {
			if j == 0 || j == par.Rows()-1 || j*cells < len(v[which]) {
				r.Rows = append(r.Rows, j)
			}
		}
		run := func(bump int) ([]int, int) {
			tape = &Tape{Seed: t.Seed, Bump: bump}
			_, o := prv.Commit(v[which])
			n := tape.n
			tape = nil
			oo := append([]*jindo.Opening{}, enc...)
			oo[which] = o
			_, pf := prv.Evaluate(x, v, com, oo)
			var row []int
			for _, p := range append(append([]ring.Poly{}, pf.Partial...), pf.PartialMask) {
				for _, e := range ecd.decode(p) {
					row = append(row, int(e.v))
				}
			}
			// The responses of these rows for some challenges.
			for _, j := range r.Rows {
				resp := ecd.decode(o.Encode[par.Cols()][j])
				for k := range par.Cols() {
					c := z.New().SetUint64(1 + splitmix(t.Seed+uint64(k))%(m.P()-1))
					for i, e := range ecd.decode(o.Encode[k][j]) {
						resp[i].Add(resp[i], z.New().Mul(c, e))
					}
				}
				for _, e := range resp {
					row = append(row, int(e.v))
				}
			}
			return row, n
		}
		base, n := run(-1)
		var mat [][]int
		for d := range n {
			row, _ := run(d)
			for i := range row {
				row[i] = (row[i] - base[i] + r.P) % r.P
			}
			mat = append(mat, row)
		}
		r.Mats = append(r.Mats, mat)
		r.OK = true
	})
	tape = nil
	return r
}

// decoder reads the cells of an encoding.
type decoder[E bignum.Uint[E]] struct{ par jindo.Parameters }

func (d *decoder[E]) decode(p ring.Poly) []E {
	var z E
	b := bigs(d.par.RingQ(), p)
	mod := modulus(z)
	base := z.New().SetUint64(d.par.Base())
	out := make([]E, d.par.Slots())
	for i := range out {
		out[i] = z.New()
		for j := d.par.Exp() - 1; j >= 0; j-- {
			out[i].Mul(out[i], base)
			out[i].Add(out[i], z.New().SetBigInt(new(big.Int).Mod(b[j*d.par.Slots()+i], mod)))
		}
	}
	return out
}

// fresh records what two proofs of the same have in common; the challenges of circuit proofs are fixed.
func fresh[E bignum.Uint[E]](t *BTarget) any {
	var z E
	r := newB(t)
	cl := classes{}
	zero := map[string]bool{}
	polyBytes := func(p ring.Poly) []byte {
		var b bytes.Buffer
		polysBytes(&b, []ring.Poly{p})
		return b.Bytes()
	}
	add := func(i int, name string, b []byte, isZero bool) {
		for len(r.Cls) <= i {
			r.Cls = append(r.Cls, []int{})
		}
		r.Cls[i] = append(r.Cls[i], cl.of("", b))
		if i == 0 {
			r.Parts, r.Zero = append(r.Parts, name), append(r.Zero, isZero)
		}
	}
	isZero := func(p ring.Poly) bool {
		for _, c := range p.Coeffs {
			for _, x := range c {
				if x != 0 {
					return false
				}
			}
		}
		return true
	}
	_ = zero
	attempt(func() {
		if t.Kind == "circuit" {
			def := newDefiner[E](t.Circ)
			prv, _, err := buckler.Compile(t.Circ.N, newInstance(t.Circ.Shape, t.Circ.NP, t.Circ.NW, def), []byte("crs-a"))
			if err != nil {
				return
			}
			for i := range 3 {
				var pf *buckler.Proof[E]
				programmed(t.Seed, func() { pf, err = prv.Prove(fill[E](t.Asg, true)) })
				if err != nil {
					return
				}
				r.Evals, r.Lin, r.Sum = len(pf.Evals), !isNil(pf.LinCheckMaskSum), !isNil(pf.SumCheckMaskSum)
				for _, e := range pf.Evals {
					add(i, "eval", e.Marshal(), e.Cmp(z.New()) == 0)
				}
				if r.Lin {
					add(i, "linsum", pf.LinCheckMaskSum.Marshal(), false)
				}
				if r.Sum {
					add(i, "sumsum", pf.SumCheckMaskSum.Marshal(), false)
				}
				for _, c := range pf.Witness {
					for _, p := range c.Value {
						add(i, "com", polyBytes(p), false)
					}
				}
				for _, p := range pf.EvalProof.InCommit {
					add(i, "incommit", polyBytes(p), false)
				}
				for _, p := range append(append([]ring.Poly{}, pf.EvalProof.Partial...), pf.EvalProof.PartialMask) {
					add(i, "partial", polyBytes(p), false)
				}
				for _, p := range append(append([]ring.Poly{}, pf.EvalProof.Encode...), pf.EvalProof.MLWE...) {
					add(i, "response", polyBytes(p), isZero(p))
				}
			}
			r.OK = true
			return
		}
		par := jindo.NewParameters[E](t.Cap, len(t.Lens))
		prv := jindo.NewProver[E](par, []byte("crs-a"))
		prs := []*jindo.Prover[E]{prv, prv, prv.SafeCopy(), jindo.NewProver[E](par, []byte("crs-a"))}
		v := make([]E, t.Lens[0])
		for j := range v {
			v[j] = z.New().MustSetRandom()
		}
		for i, p := range prs {
			c, o := p.Commit(v)
			for _, p := range c.Value {
				add(i, "com", polyBytes(p), false)
			}
			for _, p := range o.InCommit {
				add(i, "incommit", polyBytes(p), false)
			}
			for j := range o.Encode {
				for _, p := range o.Encode[j] {
					add(i, "encode", polyBytes(p), isZero(p))
				}
			}
			for j := range o.MLWE {
				for _, p := range o.MLWE[j] {
					add(i, "mlwe", polyBytes(p), false)
				}
			}
		}
		r.OK = true
	})
	return r
}

// noise measures the noise of commitments to a vector of full length.
func noise[E bignum.Uint[E]](t *BTarget) any {
	var z E
	r := newB(t)
	attempt(func() {
		par := jindo.NewParameters[E](t.Cap, len(t.Lens))
		prv := jindo.NewProver[E](par, []byte("crs-a"))
		q := par.RingQ()
		type acc struct {
			std  float64
			vals [][]float64
		}
		groups := map[string]*acc{}
		put := func(g string, std float64, v []float64) {
			if groups[g] == nil {
				groups[g] = &acc{std: std}
			}
			groups[g].vals = append(groups[g].vals, v)
		}
		floats := func(p ring.Poly) []float64 {
			var out []float64
			for _, c := range bigs(q, p) {
				f, _ := new(big.Float).SetInt(c).Float64()
				out = append(out, f)
			}
			return out
		}
		// An encoding is (X^slots - base) times a Gaussian.
		b := float64(par.Base())
		widen := math.Sqrt(1 + b*b)
		copies := max(4, 64/max(1, par.Rows()-1))
		provers := []*jindo.Prover[E]{prv, prv.SafeCopy()}
		for n := range copies {
			for i := range t.Lens {
				v := make([]E, par.Rank())
				for j := range v {
					v[j] = z.New().MustSetRandom()
					if n%2 == 0 {
						v[j] = z.New().SetInt64(-2) // base^exp - 1: the largest digits
					}
				}
				_ = i
				_, o := provers[n%2].Commit(v)
				for j := range par.Cols() + 1 {
					for k := range par.Rows() {
						g, std := "ecd", par.EcdStdDev()
						switch {
						case j == par.Cols() && k == 0:
							g, std = "maskblind", par.MaskBlindStdDev()
						case j == par.Cols():
							g, std = "mask", par.MaskStdDev()
						case k == 0:
							g, std = "blind", par.EcdBlindStdDev()
						}
						put(g, std*widen, floats(o.Encode[j][k]))
					}
					g, std := "mlwe", par.MLWEStdDev()
					if j == par.Cols() {
						g, std = "maskmlwe", par.MaskMLWEStdDev()
					}
					for k := range par.MLWERank() + par.InMSISRank() {
						put(g, std, floats(o.MLWE[j][k]))
					}
				}
				break
			}
		}
		for _, g := range []string{"ecd", "blind", "mask", "maskblind", "mlwe", "maskmlwe"} {
			a := groups[g]
			if a == nil {
				continue
			}
			var s, s2 float64
			n, rep := 0, 0
			seen := map[[16]float64]bool{}
			var worst float64 = 1
			for _, v := range a.vals {
				var ps2 float64
				for i, x := range v {
					s, s2, ps2 = s+x, s2+x*x, ps2+x*x
					n++
					if i >= 15 {
						var k [16]float64
						copy(k[:], v[i-15:i+1])
						if seen[k] {
							rep++
						}
						seen[k] = true
					}
				}
				// each polynomial by itself has 256 coefficients or more
				rt := math.Sqrt(ps2/float64(len(v))) / a.std
				if math.Abs(math.Log(max(rt, 1e-9))) > math.Abs(math.Log(max(worst, 1e-9))) {
					worst = rt
				}
			}
			row := noiseRow{G: g, N: n, Rep: rep, Mean: int(1000 * s / float64(n) / a.std), Ratio: int(min(1e8, 1000*worst))}
			_ = s2
			r.Noise = append(r.Noise, row)
		}
		r.OK = true
	})
	return r
}

func runBlind[E bignum.Uint[E]](t *BTarget) any {
	if t.What == "noise" {
		return noise[E](t)
	}
	return fresh[E](t)
}
