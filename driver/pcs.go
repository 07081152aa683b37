package main

import (
	"bytes"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
)

type PcsAct struct {
	Op   string `json:"op"`
	Crs  int    `json:"crs"`
	Q    int    `json:"q"`
	V    int    `json:"v"`
	Coms []int  `json:"coms"`
	X    int    `json:"x"`
	O    int    `json:"o"`
	W    int    `json:"w"`
}

type PcsCase struct {
	Id     int       `json:"id"`
	Field  string    `json:"field"`
	P      int64     `json:"p"`
	Cap    int       `json:"cap"`
	Batch  int       `json:"batch"`
	Polys  [][]int64 `json:"polys"`
	Points []int64   `json:"points"`
	Acts   []PcsAct  `json:"acts,omitempty"`
	Ev     []PcsEv   `json:"ev"`
}

type PcsEv struct {
	PcsAct
	Acc    bool    `json:"acc"`
	Pan    bool    `json:"pan"`
	Intact bool    `json:"intact"`
	Vals   []int64 `json:"vals"`
}

func ints[E bignum.Uint[E]](v []int64) []E {
	var z E
	out := make([]E, len(v))
	for i := range v {
		out[i] = z.New().SetInt64(v[i])
	}
	return out
}

func snapCommitted(c *jindo.Commitment, o *jindo.Opening) []byte {
	var b bytes.Buffer
	if c != nil {
		polysBytes(&b, c.Value)
	}
	if o != nil {
		polysBytes(&b, o.InCommit)
		for i := range o.Encode {
			polysBytes(&b, o.Encode[i])
		}
		for i := range o.MLWE {
			polysBytes(&b, o.MLWE[i])
		}
	}
	return b.Bytes()
}

var crsNames = []string{"", "crs-one", "crs-two"}

// shelf holds the objects of a history of commitments; act i uses and fills fixed places.
type shelf[E bignum.Uint[E]] struct {
	t      *PcsCase
	mod    *big.Int
	par    jindo.Parameters
	vrf    [3]*jindo.Verifier[E]
	prs    []*jindo.Prover[E]
	com    []*jindo.Commitment
	enc    []*jindo.Opening
	vec    [][]E
	ys     [][]E
	pfs    []*jindo.Proof
	polys  [][]E
	points []E
	slot   []int
}

func newShelf[E bignum.Uint[E]](t *PcsCase) *shelf[E] {
	var z E
	w := &shelf[E]{t: t, slot: make([]int, len(t.Acts))}
	w.mod = z.New().SetInt64(-1).BigInt(new(big.Int))
	w.mod.Add(w.mod, big.NewInt(1))
	w.par = jindo.NewParameters[E](t.Cap, t.Batch)
	for i := 1; i <= 2; i++ {
		w.vrf[i] = jindo.NewVerifier[E](w.par, []byte(crsNames[i]))
	}
	np, nc, no := 0, 0, 0
	for i, a := range t.Acts {
		switch a.Op {
		case "prover", "copy":
			w.slot[i] = np
			np++
		case "commit":
			w.slot[i] = nc
			nc++
		case "open":
			w.slot[i] = no
			no++
		}
	}
	w.prs, w.com, w.enc, w.vec = make([]*jindo.Prover[E], np), make([]*jindo.Commitment, nc), make([]*jindo.Opening, nc), make([][]E, nc)
	w.ys, w.pfs = make([][]E, no), make([]*jindo.Proof, no)
	for i := range t.Polys {
		w.polys = append(w.polys, ints[E](t.Polys[i]))
	}
	w.points = ints[E](t.Points)
	return w
}

func (w *shelf[E]) pick(ids []int) (cs []*jindo.Commitment, os []*jindo.Opening, vs [][]E) {
	for _, i := range ids {
		cs, os, vs = append(cs, w.com[i-1]), append(os, w.enc[i-1]), append(vs, w.vec[i-1])
	}
	return
}

// do performs act i.
func (w *shelf[E]) do(i int) PcsEv {
	a := w.t.Acts[i]
	ev := PcsEv{PcsAct: a, Intact: true, Vals: []int64{}}
	switch a.Op {
	case "prover":
		c := []byte(crsNames[a.Crs])
		ev.Pan, _ = attempt(func() { w.prs[w.slot[i]] = jindo.NewProver[E](w.par, c) })
		ev.Intact = string(c) == crsNames[a.Crs]
	case "copy":
		ev.Pan, _ = attempt(func() { w.prs[w.slot[i]] = w.prs[a.Q-1].SafeCopy() })
	case "commit":
		v := w.polys[a.V-1]
		ev.Pan, _ = attempt(func() { w.com[w.slot[i]], w.enc[w.slot[i]] = w.prs[a.Q-1].Commit(v) })
		w.vec[w.slot[i]] = v
		ev.Intact = same(v, ints[E](w.t.Polys[a.V-1]))
	case "open":
		cs, os, vs := w.pick(a.Coms)
		var before [][]byte
		for i := range cs {
			before = append(before, snapCommitted(cs[i], os[i]))
		}
		x := w.points[a.X-1]
		k := w.slot[i]
		ev.Pan, _ = attempt(func() { w.ys[k], w.pfs[k] = w.prs[a.Q-1].Evaluate(x, vs, cs, os) })
		for i := range cs {
			ev.Intact = ev.Intact && bytes.Equal(before[i], snapCommitted(cs[i], os[i]))
		}
		for i := range w.polys {
			ev.Intact = ev.Intact && same(w.polys[i], ints[E](w.t.Polys[i]))
		}
		ev.Intact = ev.Intact && same(w.points, ints[E](w.t.Points))
		for _, y := range w.ys[k] {
			ev.Vals = append(ev.Vals, smallInt(y, w.t.P, w.mod))
		}
	case "verify":
		cs, _, _ := w.pick(a.Coms)
		pf, y := w.pfs[a.O-1], w.ys[a.W-1]
		x := w.points[a.X-1]
		var b, b2 bytes.Buffer
		snapOpening(&b, pf)
		vecBytes(&b, y)
		for i := range cs {
			b.Write(snapCommitted(cs[i], nil))
		}
		ev.Pan, _ = attempt(func() { ev.Acc = w.vrf[a.Crs].Verify(x, cs, y, pf) })
		snapOpening(&b2, pf)
		vecBytes(&b2, y)
		for i := range cs {
			b2.Write(snapCommitted(cs[i], nil))
		}
		ev.Intact = bytes.Equal(b.Bytes(), b2.Bytes()) && same(w.points, ints[E](w.t.Points))
	}
	return ev
}

func runPcs[E bignum.Uint[E]](t *PcsCase) any {
	var w *shelf[E]
	if pan, _ := attempt(func() { w = newShelf[E](t) }); pan {
		t.Ev = []PcsEv{{PcsAct: PcsAct{Op: "prover", Coms: []int{}}, Pan: true, Intact: true, Vals: []int64{}}}
		t.Acts = nil
		return t
	}
	for i, a := range t.Acts {
		ev := w.do(i)
		t.Ev = append(t.Ev, ev)
		if ev.Pan && a.Op != "verify" {
			break
		}
	}
	t.Acts = nil
	return t
}

// same reports whether two vectors are equal.
func same[E bignum.Uint[E]](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if isNil(a[i]) || isNil(b[i]) || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}
