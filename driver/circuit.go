package main

import (
	"encoding/json"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// Int is an integer of a scenario: a number, or s * 2^e + a, or s * floor(p/2) + a (e = -1), or
// s * I + a with I the square root of -1 in the field (e = -2).
type Int struct {
	S, E int
	A    int64
	sym  bool
}

func (x *Int) UnmarshalJSON(b []byte) error {
	if b[0] != '{' {
		return json.Unmarshal(b, &x.A)
	}
	var o struct {
		S int   `json:"s"`
		E int   `json:"e"`
		A int64 `json:"a"`
	}
	if err := json.Unmarshal(b, &o); err != nil {
		return err
	}
	*x = Int{S: o.S, E: o.E, A: o.A, sym: true}
	return nil
}

func (x Int) MarshalJSON() ([]byte, error) {
	if !x.sym {
		return json.Marshal(x.A)
	}
	return json.Marshal(map[string]int64{"s": int64(x.S), "e": int64(x.E), "a": x.A})
}

func (x Int) Big(p *big.Int) *big.Int {
	r := big.NewInt(x.A)
	if x.sym && x.S != 0 {
		var t *big.Int
		if x.E == -2 {
			t = new(big.Int).Sqrt(new(big.Int).Sub(p, big.NewInt(1)))
		} else if x.E < 0 {
			t = new(big.Int).Rsh(p, 1)
		} else {
			t = new(big.Int).Lsh(big.NewInt(1), uint(x.E))
		}
		r.Add(r, t.Mul(t, big.NewInt(int64(x.S))))
	}
	return r
}

type Vec struct {
	D string `json:"d"`
	V []Int  `json:"v"`
	E int    `json:"e,omitempty"` // if not zero, 2^e is added to entry j
	J int    `json:"j,omitempty"`
}

type Term struct {
	C int64 `json:"c"`
	P int   `json:"p"`
	W []int `json:"w"`
}

type Con struct {
	T     string `json:"t"`
	Dom   string `json:"dom"`
	Terms []Term `json:"terms"`
	B     Int    `json:"b"`
	X     int    `json:"x"`
	Y     int    `json:"y"`
	M     int    `json:"m"`
	K     int    `json:"k"`
	F     int    `json:"f"`
}

// factor is a constant of the field, not zero, that multiplies a whole constraint.
func factor(f int, p *big.Int) *big.Int {
	one := big.NewInt(1)
	r := new(big.Int)
	switch f {
	case 1:
		r.Lsh(one, 63)
	case 2:
		r.Lsh(one, 64)
	case 3:
		r.Sub(p, one)
	case 4:
		r.Rsh(p, 1)
	case 5:
		r.Sub(p, big.NewInt(3))
	case 6:
		r.Lsh(one, 32)
	case 7:
		r.Mul(r.Lsh(one, 90), r).Add(r, r.Lsh(one, 90)).Add(r, big.NewInt(12345))
	case 8:
		r.Lsh(one, uint(p.BitLen()-1)).Sub(r, one)
	}
	if r.Mod(r, p).Sign() == 0 {
		return one
	}
	return r
}

// coeff is the coefficient c of a constraint and sum its declared sum, multiplied by the factor.
func (k *Con) coeff(c int64, p *big.Int) *big.Int {
	co := big.NewInt(c)
	if k.F > 0 {
		co.Mul(co, factor(k.F, p)).Mod(co, p)
	}
	return co
}

func (k *Con) sum(p *big.Int) *big.Int {
	b := k.B.Big(p)
	if k.T == "sum" && k.F > 0 {
		b.Mul(b, factor(k.F, p))
	}
	return b
}

type Circ struct {
	N     int         `json:"n"`
	NP    int         `json:"np"`
	NW    int         `json:"nw"`
	Shape string      `json:"shape"`
	Mats  [][][]int64 `json:"mats"`
	Cons  []Con       `json:"cons"`
}

type Assign struct {
	Shape string `json:"shape"`
	Pub   []Vec  `json:"pub"`
	Wit   []Vec  `json:"wit"`
	// Mis places vectors where the layout has no room for them, see session.go.
	NP int `json:"np"`
	NW int `json:"nw"`
}

// fieldP returns the modulus of E.
func fieldP[E bignum.Uint[E]]() *big.Int {
	var z E
	p := z.New().SetInt64(-1).BigInt(new(big.Int))
	return p.Add(p, big.NewInt(1))
}

// matChecker is a user-supplied linear map.
type matChecker[E bignum.Uint[E]] struct {
	m [][]int64
}

func (c *matChecker[E]) TransformTo(vOut, v []E) { c.apply(vOut, v, false) }
func (c *matChecker[E]) TransposeTo(vOut, v []E) { c.apply(vOut, v, true) }
func (c *matChecker[E]) apply(vOut, v []E, tr bool) {
	var z E
	n := len(c.m)
	out := make([]E, n)
	t := z.New()
	for i := range n {
		out[i] = z.New()
		for j := range n {
			e := c.m[i][j]
			if tr {
				e = c.m[j][i]
			}
			if e == 0 {
				continue
			}
			t.SetInt64(e)
			t.Mul(t, v[j])
			out[i].Add(out[i], t)
		}
	}
	for i := range n {
		vOut[i].Set(out[i])
	}
}

// definer is the part shared by all circuit types: the constraints, in terms of pub(i) and wit(i) (1-based).
type definer[E bignum.Uint[E]] struct {
	spec *Circ
	chk  map[[2]int]buckler.LinearChecker[E]
	// consts are the coefficients handed to the library, kept to see whether it changes them.
	consts []E
	vals   []*big.Int
	shared map[string]E
}

func newDefiner[E bignum.Uint[E]](c *Circ) *definer[E] {
	d := &definer[E]{spec: c, chk: map[[2]int]buckler.LinearChecker[E]{}, shared: map[string]E{}}
	return d
}

func (d *definer[E]) checker(m, k int) buckler.LinearChecker[E] {
	key := [2]int{m, k}
	if c, ok := d.chk[key]; ok {
		return c
	}
	var c buckler.LinearChecker[E]
	switch {
	case m > 0:
		c = &matChecker[E]{m: d.spec.Mats[m-1]}
	case m == -1:
		c = buckler.NewNTTChecker[E](d.spec.N)
	case m == -2:
		c = buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](d.spec.N), k, false)
	case m == -3:
		c = buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](d.spec.N), k, true)
	}
	d.chk[key] = c
	return c
}

func (d *definer[E]) constraint(k *Con, pub func(int) buckler.PublicWitness[E], wit func(int) buckler.Witness[E]) buckler.ArithmeticConstraint[E] {
	var z E
	var c buckler.ArithmeticConstraint[E]
	mod := fieldP[E]()
	for _, t := range k.Terms {
		var p buckler.PublicWitness[E]
		if t.P > 0 {
			p = pub(t.P)
		}
		ws := make([]buckler.Witness[E], len(t.W))
		for i := range t.W {
			ws[i] = wit(t.W[i])
		}
		co := k.coeff(t.C, mod)
		switch {
		case k.F == 0 && t.C == 1:
			c.AddTerm(p, ws...)
		case k.F == 0 && t.C == -1:
			c.SubTerm(p, ws...)
		default:
			// Terms with the same coefficient share one object, as user code does with a constant.
			e, ok := d.shared[co.String()]
			if !ok {
				e = z.New().SetBigInt(co)
				d.shared[co.String()] = e
				d.consts = append(d.consts, e)
				d.vals = append(d.vals, co)
			}
			c.AddTermWithConst(e, p, ws...)
		}
	}
	return c
}

func (d *definer[E]) define(ctx *buckler.Context[E], pub func(int) buckler.PublicWitness[E], wit func(int) buckler.Witness[E]) {
	p := fieldP[E]()
	for i := range d.spec.Cons {
		c := &d.spec.Cons[i]
		b := c.sum(p)
		if c.F > 0 && i%2 == 0 {
			b.Mod(b, p)
		}
		small := b.IsUint64()
		switch c.T {
		case "arith":
			ctx.AddArithmeticConstraint(d.constraint(c, pub, wit))
		case "sum":
			if small {
				ctx.AddSumCheckConstraint(d.constraint(c, pub, wit), b.Uint64())
			} else {
				ctx.AddSumCheckConstraintBig(d.constraint(c, pub, wit), b)
			}
		case "lin":
			ctx.AddLinearConstraint(wit(c.X), wit(c.Y), d.checker(c.M, c.K))
		case "inf":
			if small && i%2 == 0 {
				ctx.AddInfNormConstraint(wit(c.X), b.Uint64())
			} else {
				ctx.AddInfNormConstraintBig(wit(c.X), b)
			}
		case "two":
			if small && i%2 == 0 {
				ctx.AddSqTwoNormConstraint(wit(c.X), b.Uint64())
			} else {
				ctx.AddSqNormConstraintBig(wit(c.X), b)
			}
		case "approx":
			if small && i%2 == 0 {
				ctx.AddApproxInfNormConstraint(wit(c.X), b.Uint64())
			} else {
				ctx.AddApproxInfNormConstraintBig(wit(c.X), b)
			}
		}
	}
}

// constsIntact reports whether the coefficients given to the library still have their values.
func (d *definer[E]) constsIntact() bool {
	var z E
	for i := range d.consts {
		if d.consts[i].Cmp(z.New().SetBigInt(d.vals[i])) != 0 {
			return false
		}
	}
	return true
}

// instance is a circuit value of some Go type.
type instance[E bignum.Uint[E]] interface {
	buckler.Circuit[E]
	slots() (pub []*buckler.PublicWitness[E], wit []*buckler.Witness[E])
	def() *definer[E]
}

type base[E bignum.Uint[E]] struct{ d *definer[E] }

func (b base[E]) def() *definer[E] { return b.d }

func defineInst[E bignum.Uint[E]](c instance[E], ctx *buckler.Context[E]) {
	pub, wit := c.slots()
	c.def().define(ctx,
		func(i int) buckler.PublicWitness[E] { return *pub[i-1] },
		func(i int) buckler.Witness[E] { return *wit[i-1] })
}

// flat: two slices.
type flatCircuit[E bignum.Uint[E]] struct {
	base[E]
	W []buckler.Witness[E]
	P []buckler.PublicWitness[E]
}

func (c *flatCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c *flatCircuit[E]) slots() (pub []*buckler.PublicWitness[E], wit []*buckler.Witness[E]) {
	for i := range c.P {
		pub = append(pub, &c.P[i])
	}
	for i := range c.W {
		wit = append(wit, &c.W[i])
	}
	return
}

// tree: a linked list of nodes, numbered from the head but visited from the tail.
type treeNode[E bignum.Uint[E]] struct {
	Next *treeNode[E]
	P    [][1]buckler.PublicWitness[E]
	W    []buckler.Witness[E]
}
type treeCircuit[E bignum.Uint[E]] struct {
	base[E]
	Name string
	Root *treeNode[E]
}

func (c *treeCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c *treeCircuit[E]) slots() (pub []*buckler.PublicWitness[E], wit []*buckler.Witness[E]) {
	for n := c.Root; n != nil; n = n.Next {
		for i := range n.P {
			pub = append(pub, &n.P[i][0])
		}
		for i := range n.W {
			wit = append(wit, &n.W[i])
		}
	}
	return
}
func newTree[E bignum.Uint[E]](np, nw int) *treeNode[E] {
	if np == 0 && nw == 0 {
		return nil
	}
	n := &treeNode[E]{}
	if np > 0 {
		n.P = make([][1]buckler.PublicWitness[E], 1)
		np--
	}
	if nw > 0 {
		n.W = make([]buckler.Witness[E], 1)
		nw--
	}
	n.Next = newTree[E](np, nw)
	return n
}

// mixed: interfaces, slices of pointers, slices of slices; the numbering follows neither field nor walk order.
type pubBox[E bignum.Uint[E]] struct{ P buckler.PublicWitness[E] }
type witBox[E bignum.Uint[E]] struct {
	Tag int
	W   [1]buckler.Witness[E]
}
type mixedCircuit[E bignum.Uint[E]] struct {
	base[E]
	Even [][]buckler.Witness[E]
	Any  any
	Pubs []*pubBox[E]
	Nil  *pubBox[E]
	Odd  []*witBox[E]
}

func (c *mixedCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c *mixedCircuit[E]) slots() (pub []*buckler.PublicWitness[E], wit []*buckler.Witness[E]) {
	for i := len(c.Pubs) - 1; i >= 0; i-- {
		pub = append(pub, &c.Pubs[i].P)
	}
	if b, ok := c.Any.(*pubBox[E]); ok && b != nil {
		pub = append(pub, &b.P)
	}
	for i := 0; i < len(c.Even)+len(c.Odd); i++ {
		if i%2 == 0 {
			wit = append(wit, &c.Even[i/2][0])
		} else {
			wit = append(wit, &c.Odd[i/2].W[0])
		}
	}
	return
}

// extra: named fields next to fields the walk must ignore, the rest in an array-backed tail.
type extraCircuit[E bignum.Uint[E]] struct {
	base[E]
	Depth  int
	Table  map[string]int
	Check  buckler.LinearChecker[E]
	Scalar E
	First  struct {
		W []buckler.Witness[E]
		P []buckler.PublicWitness[E]
	}
	F    func()
	Rest struct {
		P []buckler.PublicWitness[E]
		X *struct{ W []buckler.Witness[E] }
	}
}

func (c *extraCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c *extraCircuit[E]) slots() (pub []*buckler.PublicWitness[E], wit []*buckler.Witness[E]) {
	for i := range c.Rest.P {
		pub = append(pub, &c.Rest.P[i])
	}
	for i := range c.First.P {
		pub = append(pub, &c.First.P[i])
	}
	if c.Rest.X != nil {
		for i := range c.Rest.X.W {
			wit = append(wit, &c.Rest.X.W[i])
		}
	}
	for i := range c.First.W {
		wit = append(wit, &c.First.W[i])
	}
	return
}

// plain: a circuit that is not a pointer.
type plainCircuit[E bignum.Uint[E]] struct {
	base[E]
	W []buckler.Witness[E]
	P []buckler.PublicWitness[E]
}

func (c plainCircuit[E]) flat() *flatCircuit[E]          { return &flatCircuit[E]{c.base, c.W, c.P} }
func (c plainCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c plainCircuit[E]) slots() ([]*buckler.PublicWitness[E], []*buckler.Witness[E]) {
	return c.flat().slots()
}

// list: a slice of circuits.
type listCircuit[E bignum.Uint[E]] []flatCircuit[E]

func (c listCircuit[E]) def() *definer[E]               { return c[0].d }
func (c listCircuit[E]) Define(ctx *buckler.Context[E]) { defineInst[E](c, ctx) }
func (c listCircuit[E]) slots() ([]*buckler.PublicWitness[E], []*buckler.Witness[E]) {
	return c[0].slots()
}

// newInstance makes an empty circuit of the given Go type with room for np public and nw secret vectors.
func newInstance[E bignum.Uint[E]](shape string, np, nw int, d *definer[E]) instance[E] {
	switch shape {
	case "tree":
		return &treeCircuit[E]{base: base[E]{d}, Name: "tree", Root: newTree[E](np, nw)}
	case "mixed":
		c := &mixedCircuit[E]{base: base[E]{d}}
		for i := range np {
			if i == np-1 {
				c.Any = &pubBox[E]{}
			} else {
				c.Pubs = append(c.Pubs, &pubBox[E]{})
			}
		}
		for i := range nw {
			if i%2 == 0 {
				c.Even = append(c.Even, make([]buckler.Witness[E], 1))
			} else {
				c.Odd = append(c.Odd, &witBox[E]{Tag: i})
			}
		}
		return c
	case "extra":
		c := &extraCircuit[E]{base: base[E]{d}, Depth: 3, Table: map[string]int{"a": 1}}
		c.First.P = make([]buckler.PublicWitness[E], np/2)
		c.Rest.P = make([]buckler.PublicWitness[E], np-np/2)
		c.First.W = make([]buckler.Witness[E], nw/2)
		if nw > 0 {
			c.Rest.X = &struct{ W []buckler.Witness[E] }{make([]buckler.Witness[E], nw-nw/2)}
		}
		return c
	case "plain":
		return plainCircuit[E]{base: base[E]{d}, W: make([]buckler.Witness[E], nw), P: make([]buckler.PublicWitness[E], np)}
	case "list":
		return listCircuit[E]{{base: base[E]{d}, W: make([]buckler.Witness[E], nw), P: make([]buckler.PublicWitness[E], np)}}
	case "none":
		return nil
	}
	return &flatCircuit[E]{base: base[E]{d}, W: make([]buckler.Witness[E], nw), P: make([]buckler.PublicWitness[E], np)}
}

// realise computes the field elements of a scenario vector.
func realise[E bignum.Uint[E]](v Vec) []E {
	var z E
	p := fieldP[E]()
	out := make([]E, len(v.V))
	for i := range v.V {
		x := v.V[i].Big(p)
		if v.E > 0 && i == v.J-1 {
			x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(v.E)))
		}
		out[i] = z.New().SetBigInt(x.Mod(x, p))
	}
	if n := len(out); v.D == "n" && n > 1 && n&(n-1) == 0 {
		ev := bigpoly.NewCyclotomicEvaluator[E](len(out))
		q := ev.NTT(&bigpoly.Poly[E]{Coeffs: out})
		return q.Coeffs
	}
	return out
}

// fill makes an assignment of the given circuit.
func fill[E bignum.Uint[E]](a *Assign, withSecrets bool) instance[E] {
	inst := newInstance[E](a.Shape, len(a.Pub), len(a.Wit), nil)
	if inst == nil {
		return nil
	}
	pub, wit := inst.slots()
	for i := range pub {
		*pub[i] = realise[E](a.Pub[i])
	}
	if withSecrets {
		for i := range wit {
			*wit[i] = realise[E](a.Wit[i])
		}
	}
	return inst
}
