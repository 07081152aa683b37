package main

import (
	"math/big"
	"runtime"
	"strings"

	"github.com/sp301415/ringo-snark/buckler"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
)

// Liar is the field of examples/mult, except that it lies to the library's own prover:
// the digits that the prover derives from a value, what it projects and the sums of its masks are the ones of the
// scenario.  A lie that finds no place in the prover has no effect.  Only one proof is made at a time.
type Liar struct{ x multzp.Uint }

type lieState struct {
	p      *big.Int
	digits map[string][]*big.Int // what a value is decomposed into
	rest   bool                  // everything else: all of it in the first digit
	base   *big.Int              // of the first digit
	length int
	queue  []*big.Int
	mark   *multzp.Uint // value left out of projections
	off    *multzp.Uint // added to mask sums
	taken  int          // lies told
}

var lie *lieState

// inside reports whether a function of the given name is being executed.
func inside(name string) bool {
	var pcs [12]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasSuffix(f.Function, name) {
			return true
		}
		if !more {
			return false
		}
	}
}

func (z *Liar) New() *Liar { return new(Liar) }
func (z *Liar) Set(a *Liar) *Liar {
	z.x.Set(&a.x)
	if lie != nil && lie.off != nil && inside("sumCheckMask") {
		z.x.Add(&z.x, lie.off)
		lie.taken++
	}
	return z
}
func (z *Liar) SetBytes(b []byte) *Liar { z.x.SetBytes(b); return z }
func (z *Liar) SetInt64(a int64) *Liar {
	if lie != nil && len(lie.queue) > 0 {
		z.x.SetBigInt(lie.queue[0])
		lie.queue = lie.queue[1:]
		lie.taken++
		return z
	}
	z.x.SetInt64(a)
	return z
}
func (z *Liar) SetUint64(a uint64) *Liar { z.x.SetUint64(a); return z }
func (z *Liar) MustSetRandom() *Liar     { z.x.MustSetRandom(); return z }
func (z *Liar) Slice(d []uint64)         { z.x.Slice(d) }
func (z *Liar) BigInt(r *big.Int) *big.Int {
	z.x.BigInt(r)
	if lie != nil {
		lie.queue = lie.digits[r.String()]
		if lie.queue == nil && lie.rest && r.Sign() != 0 {
			p := lie.p
			d := new(big.Int).ModInverse(lie.base, p)
			d.Mul(d, r).Mod(d, p)
			lie.queue = append([]*big.Int{d}, zeros(lie.length-1)...)
		}
	}
	return r
}
func (z *Liar) SetBigInt(a *big.Int) *Liar { z.x.SetBigInt(a); return z }
func (z *Liar) Marshal() []byte            { return z.x.Marshal() }
func (z *Liar) Unmarshal(b []byte)         { z.x.Unmarshal(b) }
func (z *Liar) Limb() int                  { return new(multzp.Uint).Limb() }
func (z *Liar) Add(a, b *Liar) *Liar {
	if lie != nil && lie.mark != nil && b.x.Cmp(lie.mark) == 0 && inside("TransformTo") {
		z.x.Set(&a.x)
		lie.taken++
		return z
	}
	z.x.Add(&a.x, &b.x)
	return z
}
func (z *Liar) Sub(a, b *Liar) *Liar  { z.x.Sub(&a.x, &b.x); return z }
func (z *Liar) Neg(a *Liar) *Liar     { z.x.Neg(&a.x); return z }
func (z *Liar) Mul(a, b *Liar) *Liar  { z.x.Mul(&a.x, &b.x); return z }
func (z *Liar) Inverse(a *Liar) *Liar { z.x.Inverse(&a.x); return z }
func (z *Liar) Cmp(a *Liar) int       { return z.x.Cmp(&a.x) }

// Lie is told to the prover about one assignment.
type Lie struct {
	A    int     `json:"a"` // assignment, from 1
	Kind string  `json:"kind"`
	Vals []Int   `json:"vals"` // values and what they are decomposed into
	Digs [][]Int `json:"digs"`
	Rest []int   `json:"rest"` // first digit's base and number of digits for everything else
	Mark Int     `json:"mark"` // 0: nothing is left out
	Off  Int     `json:"off"`  // divided by the rank
}

type LieTarget struct {
	Id   int      `json:"id"`
	Circ Circ     `json:"circ"`
	Asgs []Assign `json:"asgs"`
	Lies []Lie    `json:"lies"`
}

type lieCase struct {
	Lie
	Taken bool `json:"taken"`
	Made  bool `json:"made"`
	Acc   bool `json:"acc"`
	Pan   bool `json:"pan"`
}

type lieRecord struct {
	Id    int       `json:"id"`
	Field string    `json:"field"`
	Circ  Circ      `json:"circ"`
	Asgs  []Assign  `json:"asgs"`
	OK    bool      `json:"ok"`
	Cases []lieCase `json:"cases"`
}

func runLiar(t *LieTarget) any {
	r := lieRecord{Id: t.Id, Field: "zp127", Circ: t.Circ, Asgs: t.Asgs, Cases: []lieCase{}}
	p := fieldP[*Liar]()
	lie = nil
	prv, vrf, err := buckler.Compile(t.Circ.N, newInstance("flat", t.Circ.NP, t.Circ.NW, newDefiner[*Liar](&t.Circ)), []byte("crs-a"))
	if err != nil {
		return r
	}
	r.OK = true
	elem := func(x Int) *multzp.Uint { return new(multzp.Uint).SetBigInt(new(big.Int).Mod(x.Big(p), p)) }
	for _, l := range t.Lies {
		a := t.Asgs[l.A-1]
		a.Shape = "flat"
		s := &lieState{p: p, digits: map[string][]*big.Int{}}
		for i := range l.Vals {
			q := []*big.Int{}
			for _, d := range l.Digs[i] {
				q = append(q, new(big.Int).Mod(d.Big(p), p))
			}
			s.digits[new(big.Int).Mod(l.Vals[i].Big(p), p).String()] = q
		}
		if len(l.Rest) == 2 {
			s.rest, s.base, s.length = true, big.NewInt(int64(l.Rest[0])), l.Rest[1]
		}
		if l.Mark.Big(p).Sign() != 0 {
			s.mark = elem(l.Mark)
		}
		if l.Off.Big(p).Sign() != 0 {
			s.off = elem(l.Off)
			n := new(multzp.Uint).SetInt64(int64(t.Circ.N))
			s.off.Mul(s.off, n.Inverse(n))
		}
		in := fill[*Liar](&a, true)
		var pf *buckler.Proof[*Liar]
		c := lieCase{Lie: l}
		lie = s
		pan, _ := attempt(func() { pf, err = prv.Prove(in) })
		lie = nil
		c.Taken = s.taken > 0
		c.Made = !pan && err == nil && pf != nil
		if c.Made {
			pub := fill[*Liar](&a, false)
			c.Pan, _ = attempt(func() { c.Acc = vrf.Verify(pub, pf) })
		}
		r.Cases = append(r.Cases, c)
	}
	return r
}
