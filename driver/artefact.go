package main

import (
	"bytes"
	"crypto/sha256"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Target describes what is verified: a circuit proof, or an opening of a batch of polynomials.
type Target struct {
	Id    int     `json:"id"`
	Kind  string  `json:"kind"` // "circuit" or "pcs"
	Field string  `json:"field"`
	Circ  *Circ   `json:"circ,omitempty"`
	Asg   *Assign `json:"asg,omitempty"`
	Cap   int     `json:"cap"`
	Lens  []int   `json:"lens"`
	Cases [][]Alt `json:"cases,omitempty"`
}

// Alt is one alteration.
type Alt struct {
	O    string `json:"o"` // bump, swap, graft, group, all, list, poly, ptr
	A    int    `json:"a"` // component
	B    int    `json:"b"` // other component, or donor
	G    string `json:"g"` // group of components, or how to misshape
	Dom  string `json:"dom"`
	Limb int    `json:"limb"`
	Idx  int    `json:"idx"`
	D    int64  `json:"d"`
}

// artefact is a proof with everything else its verification takes.
type artefact[E bignum.Uint[E]] struct {
	com      []*jindo.Commitment
	evals    []E
	lin, sum E
	x        E
	open     *jindo.Proof
	crs      int
	nilProof bool
}

func (a *artefact[E]) copy() *artefact[E] {
	out := &artefact[E]{evals: copyVec(a.evals), lin: copyElem(a.lin), sum: copyElem(a.sum), x: copyElem(a.x), open: copyOpening(a.open), crs: a.crs}
	for i := range a.com {
		out.com = append(out.com, copyCom(a.com[i]))
	}
	return out
}

// comp is one component.
type comp[E bignum.Uint[E]] struct {
	g    string
	i    int
	elem *E
	poly *ring.Poly
	crs  *int
	ring *ring.Ring
}

func (a *artefact[E]) comps(par jindo.Parameters) []comp[E] {
	var out []comp[E]
	q, qq := par.RingQ(), par.RingQOut()
	out = append(out, comp[E]{g: "crs", crs: &a.crs})
	if !isNil(a.x) {
		out = append(out, comp[E]{g: "point", elem: &a.x})
	}
	for i := range a.com {
		for j := range a.com[i].Value {
			out = append(out, comp[E]{g: "com", i: i, poly: &a.com[i].Value[j], ring: qq})
		}
	}
	for i := range a.evals {
		out = append(out, comp[E]{g: "eval", i: i, elem: &a.evals[i]})
	}
	if !isNil(a.lin) {
		out = append(out, comp[E]{g: "linsum", elem: &a.lin})
	}
	if !isNil(a.sum) {
		out = append(out, comp[E]{g: "sumsum", elem: &a.sum})
	}
	add := func(g string, ps []ring.Poly, r *ring.Ring) {
		for i := range ps {
			out = append(out, comp[E]{g: g, i: i, poly: &ps[i], ring: r})
		}
	}
	add("incommit", a.open.InCommit, qq)
	add("partial", a.open.Partial, q)
	out = append(out, comp[E]{g: "partialmask", poly: &a.open.PartialMask, ring: q})
	add("encode", a.open.Encode, q)
	add("mlwe", a.open.MLWE, q)
	return out
}

func (c comp[E]) kind() string {
	switch {
	case c.crs != nil:
		return "crs"
	case c.elem != nil:
		return "elem"
	case c.g == "com" || c.g == "incommit":
		return "qout"
	}
	return "q"
}

func (c comp[E]) limbs() int {
	if c.ring != nil {
		return len(c.ring.SubRings)
	}
	return 0
}

func (c comp[E]) bytes() string {
	var b bytes.Buffer
	b.WriteString(c.kind())
	switch {
	case c.crs != nil:
		b.WriteByte(byte(*c.crs))
	case c.elem != nil:
		elemBytes(&b, *c.elem)
	default:
		polysBytes(&b, []ring.Poly{*c.poly})
	}
	h := sha256.Sum256(b.Bytes())
	return string(h[:])
}

func (c comp[E]) set(d comp[E]) {
	switch {
	case c.crs != nil:
		*c.crs = *d.crs
	case c.elem != nil:
		*c.elem = copyElem(*d.elem)
	default:
		*c.poly = copyPoly(*d.poly)
	}
}

func (c comp[E]) swap(d comp[E]) {
	switch {
	case c.crs != nil:
		*c.crs, *d.crs = *d.crs, *c.crs
	case c.elem != nil:
		*c.elem, *d.elem = *d.elem, *c.elem
	default:
		*c.poly, *d.poly = *d.poly, *c.poly
	}
}

// bump adds d: to a field element; to one residue of a polynomial (dom "n"); or to one of its coefficients (dom "c").
func (c comp[E]) bump(a Alt) {
	if c.crs != nil {
		*c.crs = (*c.crs + 1) % 2
		return
	}
	if c.elem != nil {
		e := (*c.elem).New().SetInt64(a.D)
		e.Add(*c.elem, e)
		*c.elem = e
		return
	}
	n := c.ring.N()
	if a.Dom == "n" {
		l := a.Limb % c.limbs()
		q := int64(c.ring.SubRings[l].Modulus)
		c.poly.Coeffs[l][a.Idx%n] = (c.poly.Coeffs[l][a.Idx%n] + uint64((a.D%q+q)%q)) % uint64(q)
		return
	}
	m := c.ring.NewPoly()
	for l := range m.Coeffs {
		q := int64(c.ring.SubRings[l].Modulus)
		m.Coeffs[l][a.Idx%n] = uint64((a.D%q + q) % q)
	}
	c.ring.MForm(m, m)
	c.ring.NTT(m, m)
	c.ring.Add(*c.poly, m, *c.poly)
}

func reshape[T any](p *[]T, how string, dup func(T) T) {
	l := *p
	switch how {
	case "droplast":
		*p = l[:len(l)-1]
	case "dropfirst":
		*p = l[1:]
	case "dup":
		*p = append(append([]T{}, l...), dup(l[len(l)-1]))
	case "empty":
		*p = []T{}
	case "nil":
		*p = nil
	}
}

// misshape breaks the form of the artefact.
func (a *artefact[E]) misshape(t Alt, cs []comp[E]) {
	var z E
	cpPoly := func(p ring.Poly) ring.Poly { return copyPoly(p) }
	switch t.O {
	case "list":
		switch t.G {
		case "com":
			reshape(&a.com, t.Dom, copyCom)
		case "eval":
			reshape(&a.evals, t.Dom, func(e E) E { return copyElem(e) })
		case "value":
			reshape(&a.com[t.A%len(a.com)].Value, t.Dom, cpPoly)
		case "incommit":
			reshape(&a.open.InCommit, t.Dom, cpPoly)
		case "partial":
			reshape(&a.open.Partial, t.Dom, cpPoly)
		case "encode":
			reshape(&a.open.Encode, t.Dom, cpPoly)
		case "mlwe":
			reshape(&a.open.MLWE, t.Dom, cpPoly)
		}
	case "ptr":
		var null E
		switch t.G {
		case "proof":
			a.nilProof = true
		case "open":
			a.open = nil
		case "com":
			a.com[t.A%len(a.com)] = nil
		case "eval":
			a.evals[t.A%len(a.evals)] = null
		case "linsum":
			if isNil(a.lin) {
				a.lin = z.New()
			} else {
				a.lin = null
			}
		case "sumsum":
			if isNil(a.sum) {
				a.sum = z.New()
			} else {
				a.sum = null
			}
		}
	case "poly":
		p := cs[t.A-1].poly
		l := len(p.Coeffs) - 1
		switch t.G {
		case "none":
			*p = ring.Poly{}
		case "droplimb":
			p.Coeffs = p.Coeffs[:l]
		case "addlimb":
			p.Coeffs = append(p.Coeffs, append([]uint64{}, p.Coeffs[0]...))
		case "cut":
			for i := range p.Coeffs {
				p.Coeffs[i] = p.Coeffs[i][:len(p.Coeffs[i])-1]
			}
		case "cutlast":
			p.Coeffs[l] = p.Coeffs[l][:len(p.Coeffs[l])/2]
		case "grow":
			for i := range p.Coeffs {
				p.Coeffs[i] = append(append([]uint64{}, p.Coeffs[i]...), 0)
			}
		case "growlast":
			p.Coeffs[l] = append(append([]uint64{}, p.Coeffs[l]...), p.Coeffs[l]...)
		case "nillimb":
			p.Coeffs[l] = nil
		}
	}
}

// stage is a target made ready: verifiers under two CRSs, a base artefact and others of the same form.
type stage[E bignum.Uint[E]] struct {
	par    jindo.Parameters
	base   *artefact[E]
	donors []*artefact[E]
	verify func(a *artefact[E]) bool
}

func newStage[E bignum.Uint[E]](t *Target) *stage[E] {
	var z E
	st := &stage[E]{}
	crs := []string{"crs-a", "crs-b"}
	if t.Kind == "circuit" {
		var pr [2]*buckler.Prover[E]
		var vr [2]*buckler.Verifier[E]
		for i := range crs {
			def := newDefiner[E](t.Circ)
			var err error
			pr[i], vr[i], err = buckler.Compile(t.Circ.N, newInstance(t.Circ.Shape, t.Circ.NP, t.Circ.NW, def), []byte(crs[i]))
			if err != nil {
				return nil
			}
		}
		st.par = pr[0].JindoParams
		public := fill[E](t.Asg, false)
		make1 := func(i int) *artefact[E] {
			pf, err := pr[i].Prove(fill[E](t.Asg, true))
			if err != nil {
				return nil
			}
			return &artefact[E]{com: pf.Witness, evals: pf.Evals, lin: pf.LinCheckMaskSum, sum: pf.SumCheckMaskSum, open: pf.EvalProof, crs: i}
		}
		st.verify = func(a *artefact[E]) bool {
			if a.nilProof {
				return vr[a.crs].Verify(public, nil)
			}
			return vr[a.crs].Verify(public, &buckler.Proof[E]{Witness: a.com, LinCheckMaskSum: a.lin, SumCheckMaskSum: a.sum, Evals: a.evals, EvalProof: a.open})
		}
		st.base, st.donors = make1(0), []*artefact[E]{make1(0), make1(1)}
		return st
	}
	st.par = jindo.NewParameters[E](t.Cap, len(t.Lens))
	var pr [2]*jindo.Prover[E]
	var vr [2]*jindo.Verifier[E]
	for i := range crs {
		pr[i], vr[i] = jindo.NewProver[E](st.par, []byte(crs[i])), jindo.NewVerifier[E](st.par, []byte(crs[i]))
	}
	poly := func() [][]E {
		var v [][]E
		for _, l := range t.Lens {
			p := make([]E, l)
			for j := range p {
				p[j] = z.New().MustSetRandom()
			}
			v = append(v, p)
		}
		return v
	}
	make1 := func(i int, v [][]E, x E) *artefact[E] {
		a := &artefact[E]{x: x, crs: i}
		var op []*jindo.Opening
		for j := range v {
			c, o := pr[i].Commit(v[j])
			a.com, op = append(a.com, c), append(op, o)
		}
		a.evals, a.open = pr[i].Evaluate(x, v, a.com, op)
		return a
	}
	v := poly()
	x := z.New().MustSetRandom()
	st.base = make1(0, v, x)
	// the same point: another commitment to the same polynomials; then other polynomials, elsewhere, under another CRS
	st.donors = []*artefact[E]{make1(0, v, z.New().Set(x)), make1(1, poly(), z.New().MustSetRandom())}
	st.verify = func(a *artefact[E]) bool { return vr[a.crs].Verify(a.x, a.com, a.evals, a.open) }
	return st
}

type compInfo struct {
	G     string `json:"g"`
	I     int    `json:"i"`
	Kind  string `json:"kind"`
	Limbs int    `json:"limbs"`
}

type shapeRecord struct {
	Id    int        `json:"id"`
	Kind  string     `json:"kind"`
	Comps []compInfo `json:"comps"`
	N     int        `json:"n"`
	Coms  int        `json:"coms"`
	Lin   bool       `json:"lin"`
	Sum   bool       `json:"sum"`
	OK    bool       `json:"ok"`
}

func (st *stage[E]) info() []compInfo {
	var out []compInfo
	for _, c := range st.base.comps(st.par) {
		out = append(out, compInfo{G: c.g, I: c.i, Kind: c.kind(), Limbs: c.limbs()})
	}
	return out
}

func runShape[E bignum.Uint[E]](t *Target) any {
	r := shapeRecord{Id: t.Id, Kind: t.Kind, Comps: []compInfo{}}
	attempt(func() {
		st := newStage[E](t)
		if st == nil || st.base == nil {
			return
		}
		r.Comps, r.N, r.Coms = st.info(), st.par.RingQ().N(), len(st.base.com)
		r.Lin, r.Sum, r.OK = !isNil(st.base.lin), !isNil(st.base.sum), true
	})
	return r
}

type verdict struct {
	Acc bool `json:"acc"`
	Pan bool `json:"pan"`
}

type caseRecord struct {
	Ops []Alt     `json:"ops"`
	Res []verdict `json:"res"`
}

type tamperRecord struct {
	Id    int          `json:"id"`
	Kind  string       `json:"kind"`
	Field string       `json:"field"`
	Comps []compInfo   `json:"comps"`
	Cls   [][]int      `json:"cls"` // per source (base first), per component: equal values have equal numbers
	Base  []bool       `json:"base"`
	Cases []caseRecord `json:"cases"`
	Again bool         `json:"again"`
}

func runTamper[E bignum.Uint[E]](t *Target) any {
	r := tamperRecord{Id: t.Id, Kind: t.Kind, Field: t.Field, Comps: []compInfo{}, Cls: [][]int{}, Cases: []caseRecord{}}
	var st *stage[E]
	attempt(func() { st = newStage[E](t) })
	if st == nil || st.base == nil {
		return r
	}
	r.Comps = st.info()
	sources := append([]*artefact[E]{st.base}, st.donors...)
	ids := map[string]int{}
	for _, s := range sources {
		var row []int
		for _, c := range s.comps(st.par) {
			b := c.bytes()
			if _, ok := ids[b]; !ok {
				ids[b] = len(ids) + 1
			}
			row = append(row, ids[b])
		}
		r.Cls = append(r.Cls, row)
		ok := false
		attempt(func() { ok = st.verify(s.copy()) })
		r.Base = append(r.Base, ok)
	}
	for _, ops := range t.Cases {
		a := st.base.copy()
		cs := a.comps(st.par)
		cr := caseRecord{Ops: ops, Res: []verdict{}}
		for _, o := range ops {
			switch o.O {
			case "bump":
				cs[o.A-1].bump(o)
			case "swap":
				cs[o.A-1].swap(cs[o.B-1])
			case "graft":
				cs[o.A-1].set(st.donors[o.B-1].comps(st.par)[o.A-1])
			case "group", "all":
				for i, c := range st.donors[o.B-1].comps(st.par) {
					if o.O == "all" || c.g == o.G {
						cs[i].set(c)
					}
				}
			default:
				a.misshape(o, cs)
			}
			var v verdict
			v.Pan, _ = attempt(func() { v.Acc = st.verify(a) })
			cr.Res = append(cr.Res, v)
		}
		r.Cases = append(r.Cases, cr)
	}
	attempt(func() { r.Again = st.verify(st.base) })
	return r
}

func target[E bignum.Uint[E]](t *Target, shape bool) any {
	if shape {
		return runShape[E](t)
	}
	return runTamper[E](t)
}
