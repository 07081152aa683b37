package main

import (
	"math/big"
	"math/rand"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// Imm describes a number that enters a register: sg * (m * p + c * 2^e + a), plus rnd random bits.
type Imm struct {
	Sg   int64 `json:"sg"`
	M    int64 `json:"m"`
	C    int64 `json:"c"`
	E    uint  `json:"e"`
	A    int64 `json:"a"`
	Rnd  uint  `json:"rnd"`
	Seed int64 `json:"seed"`
	Half bool  `json:"half"` // of it
	Mont bool  `json:"mont"` // what the words of the element hold, which stand for 2^64 to their number times its value
	Pad  int   `json:"pad"`  // leading zero bytes
}

func (i Imm) Big(p *big.Int, words int) *big.Int {
	x := new(big.Int).Mul(big.NewInt(i.M), p)
	x.Add(x, new(big.Int).Mul(big.NewInt(i.C), new(big.Int).Lsh(big.NewInt(1), i.E)))
	x.Add(x, big.NewInt(i.A))
	if i.Rnd > 0 {
		x.Add(x, new(big.Int).Rand(rand.New(rand.NewSource(i.Seed)), new(big.Int).Lsh(big.NewInt(1), i.Rnd)))
	}
	if i.Half {
		x.Rsh(x, 1)
	}
	x.Mul(x, big.NewInt(i.Sg))
	if i.Mont {
		r := new(big.Int).Lsh(big.NewInt(1), uint(64*words))
		x.Mul(x, r.ModInverse(r, p)).Mod(x, p)
	}
	return x
}

type FieldOp struct {
	Op  string `json:"op"`
	D   int    `json:"d"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	Imm Imm    `json:"imm"`
}

type FieldProg struct {
	Id    int       `json:"id"`
	Field string    `json:"field"`
	Prog  []FieldOp `json:"prog"`
}

type fieldStep struct {
	Sq bool  `json:"sq"` // squaring, or else a multiplication
	Q  []int `json:"q"`
	R  []int `json:"r"`
}

type fieldEvent struct {
	Op    string      `json:"op"`
	D     int         `json:"d"`
	A     int         `json:"a"`
	B     int         `json:"b"`
	Neg   bool        `json:"neg"`
	M     []int       `json:"m"` // what entered, in limbs
	Q     []int       `json:"q"` // quotient
	Out   []int       `json:"out"`
	Len   int         `json:"len"`
	Self  bool        `json:"self"` // the receiver is returned
	Steps []fieldStep `json:"steps"`
	Regs  [][]int     `json:"regs"`
	Pan   bool        `json:"pan"`
}

type fieldRecord struct {
	Id    int          `json:"id"`
	Field string       `json:"field"`
	P     []int        `json:"p"`
	Words int          `json:"words"`
	Ev    []fieldEvent `json:"ev"`
}

// limbsOf gives the magnitude of x in limbs of 12 bits.
func limbsOf(x *big.Int) []int {
	out := []int{}
	t, m := new(big.Int).Abs(x), big.NewInt(4095)
	for t.Sign() != 0 {
		out = append(out, int(new(big.Int).And(t, m).Int64()))
		t.Rsh(t, 12)
	}
	return out
}

func runField[E interface {
	bignum.Uint[E]
	comparable
}](t *FieldProg) any {
	var z E
	p := fieldP[E]()
	words := z.Limb()
	rec := fieldRecord{Id: t.Id, Field: t.Field, P: limbsOf(p), Words: words}
	regs := make([]E, 4)
	for i := range regs {
		regs[i] = z.New()
	}
	val := func(i int) *big.Int {
		if i == 0 {
			return new(big.Int)
		}
		return regs[i-1].BigInt(new(big.Int))
	}
	div := func(x *big.Int) []int { return limbsOf(new(big.Int).Div(x, p)) }
	for _, o := range t.Prog {
		e := fieldEvent{Op: o.Op, D: o.D, A: o.A, B: o.B, M: []int{}, Q: []int{}, Out: []int{}, Steps: []fieldStep{}, Self: true}
		d := regs[o.D-1]
		va, vb := val(o.A), val(o.B)
		var ret E
		ret = d
		// entered notes the number and the quotient that takes it to the register
		entered := func(x *big.Int) {
			e.Neg, e.M = x.Sign() < 0, limbsOf(x)
			if e.Neg {
				e.Q = div(new(big.Int).Add(new(big.Int).Neg(x), val(o.D)))
			} else {
				e.Q = div(x)
			}
		}
		e.Pan, _ = attempt(func() {
			switch o.Op {
			case "add":
				ret = d.Add(regs[o.A-1], regs[o.B-1])
				e.Q = div(va.Add(va, vb))
			case "sub":
				ret = d.Sub(regs[o.A-1], regs[o.B-1])
				e.Q = div(vb.Add(vb, val(o.D)))
			case "neg":
				ret = d.Neg(regs[o.A-1])
				e.Q = div(va.Add(va, val(o.D)))
			case "mul":
				ret = d.Mul(regs[o.A-1], regs[o.B-1])
				e.Q = div(va.Mul(va, vb))
			case "inv":
				ret = d.Inverse(regs[o.A-1])
				e.Q = div(va.Mul(va, val(o.D)))
			case "set":
				ret = d.Set(regs[o.A-1])
			case "new":
				regs[o.D-1] = z.New()
				ret, d = regs[o.D-1], regs[o.D-1]
			case "marshal":
				b := regs[o.A-1].Marshal()
				e.Len, e.Out = len(b), limbsOf(new(big.Int).SetBytes(b))
				d.Unmarshal(b)
			case "int":
				x := o.Imm.Big(p, words)
				if !x.IsInt64() {
					x = big.NewInt(-1 << 63)
					if o.Imm.A%2 != 0 {
						x = big.NewInt(1<<63 - 1)
					}
				}
				ret = d.SetInt64(x.Int64())
				entered(x)
			case "uint":
				x := o.Imm.Big(p, words)
				x.Abs(x)
				if !x.IsUint64() {
					x.SetUint64(1<<64 - 1)
				}
				ret = d.SetUint64(x.Uint64())
				entered(x)
			case "big", "near":
				x := o.Imm.Big(p, words)
				if o.Op == "near" {
					if o.Imm.E = o.Imm.E % uint(64*words); o.Imm.E == 0 {
						o.Imm.E = 64
					}
					x.Add(o.Imm.Big(p, words), va)
				}
				y := new(big.Int).Set(x)
				ret = d.SetBigInt(y)
				e.Self = x.Cmp(y) == 0
				entered(x)
			case "bytes":
				x := o.Imm.Big(p, words)
				x.Abs(x)
				ret = d.SetBytes(append(make([]byte, o.Imm.Pad), x.Bytes()...))
				entered(x)
			case "rand":
				ret = d.MustSetRandom()
			case "exp":
				x := o.Imm.Big(p, words)
				x.Abs(x)
				x.And(x, new(big.Int).SetUint64(1<<64-1))
				if words > 2 {
					x.And(x, big.NewInt(4095))
				}
				old := new(big.Int).Set(va)
				r := bignum.Exp(regs[o.A-1], x.Uint64())
				regs[o.D-1] = r
				ret, d = r, r
				e.M = limbsOf(x)
				acc := big.NewInt(1)
				step := func(sq bool) {
					f := old
					if sq {
						f = acc
					}
					q, r := new(big.Int).DivMod(new(big.Int).Mul(acc, f), p, new(big.Int))
					e.Steps = append(e.Steps, fieldStep{sq, limbsOf(q), limbsOf(r)})
					acc = r
				}
				for i := x.BitLen() - 1; i >= 0; i-- {
					if i < x.BitLen()-1 {
						step(true)
					}
					if x.Bit(i) == 1 {
						step(false)
					}
				}
			case "slice":
				out := make([]uint64, words+2)
				out[words], out[words+1] = 77, 78
				regs[o.A-1].Slice(out)
				if out[words] == 77 && out[words+1] == 78 {
					e.Len = words
				}
				x := new(big.Int)
				for i := words - 1; i >= 0; i-- {
					x.Lsh(x, 64).Add(x, new(big.Int).SetUint64(out[i]))
				}
				e.Out = limbsOf(x)
			case "cmp":
				e.Len = regs[o.A-1].Cmp(regs[o.B-1])
			case "same":
				// Exponents of one give the element itself, in memory of its own.
				r := bignum.Exp(regs[o.A-1], 1)
				e.Self = r != regs[o.A-1]
				e.Out = limbsOf(r.BigInt(new(big.Int)))
			}
		})
		e.Self = e.Self && ret == d
		for i := range regs {
			e.Regs = append(e.Regs, limbsOf(val(i+1)))
		}
		rec.Ev = append(rec.Ev, e)
	}
	return rec
}
