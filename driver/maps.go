package main

import (
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

type MapCase struct {
	Id     int     `json:"id"`
	Kind   string  `json:"kind"`
	N      int     `json:"n"`
	P      int64   `json:"p"`
	Field  string  `json:"field"`
	K      int     `json:"k"`
	V      []int64 `json:"v"`
	U      []int64 `json:"u"`
	Q      int64   `json:"q"`
	QP     bool    `json:"qp"`
	X      int64   `json:"x"`
	MV     []int64 `json:"mv"`
	MU     []int64 `json:"mu"`
	MS     []int64 `json:"ms"`  // M(v + u)
	MP     []int64 `json:"mp"`  // M(v * u) in the negacyclic ring
	MTU    []int64 `json:"mtu"` // transposed map
	Out    []int64 `json:"out"`
	Val    int64   `json:"val"`
	Flag   bool    `json:"flag"`
	Pan    bool    `json:"pan"`
	Intact bool    `json:"intact"`
}

func runMap[E bignum.Uint[E]](r *MapCase) any {
	var z E
	mod := fieldP[E]()
	vec := func(v []int64) []E {
		out := make([]E, len(v))
		for i := range v {
			out[i] = z.New().SetInt64(v[i])
		}
		return out
	}
	see := func(v []E) []int64 {
		out := make([]int64, len(v))
		for i := range v {
			out[i] = smallInt(v[i], r.P, mod)
		}
		return out
	}
	same := func(a, b []E) bool {
		for i := range a {
			if a[i].Cmp(b[i]) != 0 {
				return false
			}
		}
		return len(a) == len(b)
	}
	r.Intact = true
	r.MV, r.MU, r.MS, r.MP, r.MTU, r.Out = []int64{}, []int64{}, []int64{}, []int64{}, []int64{}, []int64{}
	v, u := vec(r.V), vec(r.U)
	r.Pan, _ = attempt(func() {
		switch r.Kind {
		case "switch":
			q := big.NewInt(r.Q)
			if r.QP {
				q.Mul(q, mod)
			}
			in := make([]*big.Int, len(r.V))
			for i := range in {
				in[i] = big.NewInt(r.V[i])
			}
			q0 := new(big.Int).Set(q)
			ev := bigpoly.NewCyclotomicEvaluator[E](r.N)
			out := ev.ModSwitch(in, q)
			out2 := ev.NewPoly(true)
			for i := range out2.Coeffs {
				out2.Coeffs[i].SetInt64(int64(i) + 5)
			}
			ev.ModSwitchTo(out2, in, q)
			r.Out, r.Flag = see(out.Coeffs), out.IsNTT || out2.IsNTT
			if !same(out.Coeffs, out2.Coeffs) {
				r.Out = append(r.Out[:len(r.Out)-1], outOfRange)
			}
			for i := range in {
				r.Intact = r.Intact && in[i].Cmp(big.NewInt(r.V[i])) == 0
			}
			r.Intact = r.Intact && q.Cmp(q0) == 0
		case "eval":
			x := z.New().SetInt64(r.X)
			p := &bigpoly.Poly[E]{Coeffs: v}
			r.Val = smallInt(p.Evaluate(x), r.P, mod)
			r.Intact = same(v, vec(r.V)) && x.Cmp(z.New().SetInt64(r.X)) == 0
		default:
			var chk buckler.LinearChecker[E]
			switch r.Kind {
			case "ntt":
				chk = buckler.NewNTTChecker[E](r.N)
			case "autc":
				chk = buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](r.N), r.K, false)
			case "autn":
				chk = buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](r.N), r.K, true)
			}
			apply := func(v []E, tr bool) []int64 {
				// The output holds something else before.
				out := make([]E, r.N)
				for i := range out {
					out[i] = z.New().SetInt64(int64(3*i + 1))
				}
				before := copyVec(v)
				if tr {
					chk.TransposeTo(out, v)
				} else {
					chk.TransformTo(out, v)
				}
				r.Intact = r.Intact && same(before, v)
				return see(out)
			}
			sum := make([]E, r.N)
			for i := range sum {
				sum[i] = z.New().Add(v[i], u[i])
			}
			r.MV, r.MU, r.MS, r.MTU = apply(v, false), apply(u, false), apply(sum, false), apply(u, true)
			if r.Kind == "ntt" {
				prod := make([]E, r.N)
				for i := range prod {
					prod[i] = z.New()
				}
				t := z.New()
				for i := range r.N {
					for j := range r.N {
						t.Mul(v[i], u[j])
						if i+j < r.N {
							prod[i+j].Add(prod[i+j], t)
						} else {
							prod[i+j-r.N].Sub(prod[i+j-r.N], t)
						}
					}
				}
				r.MP = apply(prod, false)
			}
		}
	})
	return r
}
