package main

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

type RingOp struct {
	Op string  `json:"op"`
	D  int     `json:"d"`
	E  int     `json:"e"`
	A  int     `json:"a"`
	B  int     `json:"b"`
	C  int64   `json:"c"`
	K  int     `json:"k"`
	V  []int64 `json:"v"`
}

type RingProg struct {
	Id    int        `json:"id"`
	Ring  string     `json:"ring"`
	N     int        `json:"n"`
	P     int64      `json:"p"`
	Field string     `json:"field"`
	Prog  []RingOp   `json:"prog"`
	Init  []RegVal   `json:"init"`
	Steps []RingStep `json:"steps"`
}

type RegVal struct {
	F bool    `json:"f"`
	V []int64 `json:"v"`
}

type RingStep struct {
	Regs   []RegVal `json:"regs"`
	Alt    []RegVal `json:"alt"`
	Val    int64    `json:"val"`
	Pan    bool     `json:"pan"`
	Scalar bool     `json:"scalar"`
}

// ringEval is what both evaluators offer.
type ringEval[E bignum.Uint[E]] interface {
	NewPoly(bool) *bigpoly.Poly[E]
	Add(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(d, a, b *bigpoly.Poly[E])
	Sub(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(d, a, b *bigpoly.Poly[E])
	Neg(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(d, a *bigpoly.Poly[E])
	ScalarMul(a *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(d, a *bigpoly.Poly[E], c E)
	ScalarMulAddTo(d, a *bigpoly.Poly[E], c E)
	ScalarMulSubTo(d, a *bigpoly.Poly[E], c E)
	Mul(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(d, a, b *bigpoly.Poly[E])
	MulAddTo(d, a, b *bigpoly.Poly[E])
	MulSubTo(d, a, b *bigpoly.Poly[E])
	NTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(d, a *bigpoly.Poly[E])
	InvNTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(d, a *bigpoly.Poly[E])
}

const outOfRange = 2147483647

// smallInt reads an element as an integer: in [0, p) for a toy field, centred otherwise.
func smallInt[E bignum.Uint[E]](e E, p int64, mod *big.Int) int64 {
	b := e.BigInt(new(big.Int))
	if p == 0 && b.Cmp(new(big.Int).Rsh(mod, 1)) > 0 {
		b.Sub(b, mod)
	}
	if !b.IsInt64() || b.Int64() > outOfRange-1 || b.Int64() < -outOfRange+1 {
		return outOfRange
	}
	return b.Int64()
}

func freshPoly[E bignum.Uint[E]](p *bigpoly.Poly[E]) *bigpoly.Poly[E] {
	return &bigpoly.Poly[E]{Coeffs: copyVec(p.Coeffs), IsNTT: p.IsNTT}
}

func ringApply[E bignum.Uint[E]](ev ringEval[E], o *RingOp, d, a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] {
	switch o.Op {
	case "Add":
		return ev.Add(a, b)
	case "AddTo":
		ev.AddTo(d, a, b)
	case "Sub":
		return ev.Sub(a, b)
	case "SubTo":
		ev.SubTo(d, a, b)
	case "Neg":
		return ev.Neg(a)
	case "NegTo":
		ev.NegTo(d, a)
	case "ScalarMul":
		return ev.ScalarMul(a, c)
	case "ScalarMulTo":
		ev.ScalarMulTo(d, a, c)
	case "ScalarMulAddTo":
		ev.ScalarMulAddTo(d, a, c)
	case "ScalarMulSubTo":
		ev.ScalarMulSubTo(d, a, c)
	case "Mul":
		return ev.Mul(a, b)
	case "MulTo":
		ev.MulTo(d, a, b)
	case "MulAddTo":
		ev.MulAddTo(d, a, b)
	case "MulSubTo":
		ev.MulSubTo(d, a, b)
	case "NTT":
		return ev.NTT(a)
	case "NTTTo":
		ev.NTTTo(d, a)
	case "InvNTT":
		return ev.InvNTT(a)
	case "InvNTTTo":
		ev.InvNTTTo(d, a)
	case "Aut":
		return any(ev).(*bigpoly.CyclotomicEvaluator[E]).Aut(a, o.K)
	case "AutTo":
		any(ev).(*bigpoly.CyclotomicEvaluator[E]).AutTo(d, a, o.K)
	case "CopyFrom":
		d.CopyFrom(a)
	case "Clear":
		d.Clear()
	}
	return d
}

func newEval[E bignum.Uint[E]](r *RingProg) ringEval[E] {
	if r.Ring == "cyclic" {
		return bigpoly.NewCyclicEvaluator[E](r.N)
	}
	return bigpoly.NewCyclotomicEvaluator[E](r.N)
}

func runRing[E bignum.Uint[E]](r *RingProg) any { return playRing(newEval[E](r), r) }

func playRing[E bignum.Uint[E]](ev ringEval[E], r *RingProg) *RingProg {
	var z E
	mod := fieldP[E]()
	regs := make([]*bigpoly.Poly[E], 4)
	for i := range regs {
		regs[i] = ev.NewPoly(false)
	}
	see := func(p *bigpoly.Poly[E]) RegVal {
		q := freshPoly(p)
		if q.IsNTT {
			out := bigpoly.NewPoly[E](r.N, false)
			ev.InvNTTTo(out, q)
			q = out
		}
		v := RegVal{F: p.IsNTT, V: make([]int64, len(q.Coeffs))}
		for i := range q.Coeffs {
			v.V[i] = smallInt(q.Coeffs[i], r.P, mod)
		}
		return v
	}
	all := func() []RegVal {
		out := make([]RegVal, len(regs))
		for i := range regs {
			attempt(func() { out[i] = see(regs[i]) })
		}
		return out
	}
	r.Init = all()
	for i := range r.Prog {
		o := &r.Prog[i]
		st := RingStep{Scalar: true, Alt: []RegVal{}}
		c := z.New().SetInt64(o.C)
		st.Pan, _ = attempt(func() {
			d, a, b := regs[o.D-1], regs[o.A-1], regs[o.B-1]
			switch o.Op {
			case "Load":
				p := ev.NewPoly(false)
				for j := range o.V {
					p.Coeffs[j].SetInt64(o.V[j])
				}
				regs[o.D-1] = p
			case "Poke":
				d.Coeffs[o.K-1].SetInt64(o.C)
			case "Evaluate":
				st.Val = smallInt(a.Evaluate(c), r.P, mod)
			case "QuoRem":
				quo, rem := any(ev).(*bigpoly.CyclicEvaluator[E]).QuoRemByVanishing(a, o.K)
				regs[o.D-1], regs[o.E-1] = quo, rem
			default:
				aliased := d == a || d == b
				var fd *bigpoly.Poly[E]
				if aliased && o.Op[len(o.Op)-2:] == "To" {
					fd = ringApply(ev, o, freshPoly(d), freshPoly(a), freshPoly(b), copyElem(c))
				}
				regs[o.D-1] = ringApply(ev, o, d, a, b, c)
				if fd != nil {
					st.Alt = append(st.Alt, see(fd))
				}
			}
		})
		st.Scalar = c.Cmp(z.New().SetInt64(o.C)) == 0
		st.Regs = all()
		r.Steps = append(r.Steps, st)
		if st.Pan {
			r.Prog = r.Prog[:i+1]
			break
		}
	}
	return r
}
