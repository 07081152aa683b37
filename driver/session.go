package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Act is one call of a scenario.
type Act struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	Crs  string `json:"crs"`
	Pair int    `json:"pair"`
	Asg  int    `json:"asg"`
	Pf   int    `json:"pf"`
	Base bool   `json:"base"` // part of the baseline, see SessionTrace
}

type Scenario struct {
	Id    int      `json:"id"`
	Field string   `json:"field"`
	Circs []Circ   `json:"circs"`
	Asgs  []Assign `json:"asgs"`
	Acts  []Act    `json:"acts"`
}

// Event is a recorded call.
type Event struct {
	Act
	Res    string `json:"res"` // "ok", "err" or "panic"
	Acc    bool   `json:"acc"`
	Intact bool   `json:"intact"`
	What   string `json:"what"`
}

type SessionRecord struct {
	Id    int      `json:"id"`
	Field string   `json:"field"`
	Circs []Circ   `json:"circs"`
	Asgs  []Assign `json:"asgs"`
	Ev    []Event  `json:"ev"`
}

func polysBytes(buf *bytes.Buffer, ps []ring.Poly) {
	binary.Write(buf, binary.LittleEndian, int64(len(ps)))
	for i := range ps {
		binary.Write(buf, binary.LittleEndian, int64(len(ps[i].Coeffs)))
		for j := range ps[i].Coeffs {
			binary.Write(buf, binary.LittleEndian, int64(len(ps[i].Coeffs[j])))
			binary.Write(buf, binary.LittleEndian, ps[i].Coeffs[j])
		}
	}
}

func elemBytes[E bignum.Uint[E]](buf *bytes.Buffer, e E) {
	if reflect.ValueOf(e).IsNil() {
		buf.WriteByte(0)
		return
	}
	buf.WriteByte(1)
	buf.Write(e.Marshal())
}

// snapProof is a byte image of everything in a proof.
func snapProof[E bignum.Uint[E]](pf *buckler.Proof[E]) []byte {
	var buf bytes.Buffer
	if pf == nil {
		return nil
	}
	for i := range pf.Witness {
		if pf.Witness[i] == nil {
			buf.WriteByte(0)
			continue
		}
		polysBytes(&buf, pf.Witness[i].Value)
	}
	elemBytes(&buf, pf.LinCheckMaskSum)
	elemBytes(&buf, pf.SumCheckMaskSum)
	for i := range pf.Evals {
		elemBytes(&buf, pf.Evals[i])
	}
	snapOpening(&buf, pf.EvalProof)
	return buf.Bytes()
}

func snapOpening(buf *bytes.Buffer, pf *jindo.Proof) {
	if pf == nil {
		buf.WriteByte(0)
		return
	}
	polysBytes(buf, pf.InCommit)
	polysBytes(buf, pf.Partial)
	polysBytes(buf, []ring.Poly{pf.PartialMask})
	polysBytes(buf, pf.Encode)
	polysBytes(buf, pf.MLWE)
}

func vecBytes[E bignum.Uint[E]](buf *bytes.Buffer, v []E) {
	binary.Write(buf, binary.LittleEndian, int64(len(v)))
	for i := range v {
		elemBytes(buf, v[i])
	}
}

func snapAssign[E bignum.Uint[E]](c instance[E]) []byte {
	var buf bytes.Buffer
	if c == nil {
		return nil
	}
	pub, wit := c.slots()
	for i := range pub {
		vecBytes(&buf, *pub[i])
	}
	for i := range wit {
		vecBytes(&buf, *wit[i])
	}
	return buf.Bytes()
}

type pairObj[E bignum.Uint[E]] struct {
	prv *buckler.Prover[E]
	vrf *buckler.Verifier[E]
	def *definer[E]
}

// world holds the objects of a session; act i of the scenario uses and fills fixed places.
type world[E bignum.Uint[E]] struct {
	s      *Scenario
	pairs  []pairObj[E]
	proofs []*buckler.Proof[E]
	owner  []int
	full   []instance[E]
	public []instance[E]
	slot   []int // where act i puts its pair or proof
	apart  bool  // every call has its own copy of the assignment
	desk   map[string]instance[E]
}

// onDesk writes an assignment over an earlier one of the same layout, as a program does that keeps one circuit
// object and its vectors for all proofs.
func (w *world[E]) onDesk(a *Assign, withSecrets bool) instance[E] {
	in := fill[E](a, withSecrets)
	if in == nil {
		return nil
	}
	pub, wit := in.slots()
	key := fmt.Sprint(a.Shape, withSecrets, len(pub), len(wit))
	for i := range pub {
		key += fmt.Sprint(" ", len(*pub[i]))
	}
	for i := range wit {
		key += fmt.Sprint(" ", len(*wit[i]))
	}
	old, ok := w.desk[key]
	if !ok {
		w.desk[key] = in
		return in
	}
	oldPub, oldWit := old.slots()
	for i := range pub {
		for j := range *pub[i] {
			(*oldPub[i])[j].Set((*pub[i])[j])
		}
	}
	for i := range wit {
		for j := range *wit[i] {
			(*oldWit[i])[j].Set((*wit[i])[j])
		}
	}
	return old
}

func newWorld[E bignum.Uint[E]](s *Scenario) *world[E] {
	w := &world[E]{s: s, slot: make([]int, len(s.Acts))}
	for i := range s.Asgs {
		w.full = append(w.full, fill[E](&s.Asgs[i], true))
		w.public = append(w.public, fill[E](&s.Asgs[i], false))
	}
	np, nf := 0, 0
	for i, a := range s.Acts {
		switch a.Op {
		case "compile":
			w.slot[i] = np
			np++
		case "prove":
			w.slot[i] = nf
			w.owner = append(w.owner, a.Pair)
			nf++
		case "tamper":
			w.slot[i] = nf
			w.owner = append(w.owner, w.owner[a.Pf-1])
			nf++
		}
	}
	w.pairs, w.proofs = make([]pairObj[E], np), make([]*buckler.Proof[E], nf)
	return w
}

// do performs act i.
func (w *world[E]) do(i int) Event {
	a := w.s.Acts[i]
	ev := Event{Act: a, Res: "ok", Intact: true}
	switch a.Op {
	case "compile":
		c := &w.s.Circs[a.C-1]
		def := newDefiner[E](c)
		p := pairObj[E]{def: def}
		pan, what := attempt(func() {
			inst := newInstance(c.Shape, c.NP, c.NW, def)
			var err error
			p.prv, p.vrf, err = buckler.Compile(c.N, inst, []byte(a.Crs))
			if err != nil {
				ev.Res, ev.What = "err", err.Error()
			}
		})
		if pan {
			ev.Res, ev.What = "panic", what
		}
		ev.Intact = def.constsIntact()
		w.pairs[w.slot[i]] = p
	case "prove":
		var pf *buckler.Proof[E]
		p := w.pairs[a.Pair-1]
		in := w.full[a.Asg-1]
		if w.desk != nil && !a.Base {
			in = w.onDesk(&w.s.Asgs[a.Asg-1], true)
		} else if w.apart {
			in = fill[E](&w.s.Asgs[a.Asg-1], true)
		}
		before := snapAssign(in)
		pan, what := attempt(func() {
			var err error
			pf, err = p.prv.Prove(in)
			if err != nil {
				ev.Res, ev.What = "err", err.Error()
				if pf != nil {
					ev.What = "proof returned together with error: " + ev.What
					ev.Res = "errproof"
				}
				pf = nil
			}
		})
		if pan {
			ev.Res, ev.What = "panic", what
			pf = nil
		}
		ev.Intact = bytes.Equal(before, snapAssign(in)) && p.def.constsIntact()
		w.proofs[w.slot[i]] = pf
	case "tamper":
		var pf *buckler.Proof[E]
		if src := w.proofs[a.Pf-1]; src != nil {
			pf = tamperSome(src, w.pairs[w.owner[a.Pf-1]-1].prv.JindoParams, a.C)
		}
		w.proofs[w.slot[i]] = pf
	case "verify":
		p := w.pairs[a.Pair-1]
		pf := w.proofs[a.Pf-1]
		if pf == nil {
			ev.What = "no proof"
			break
		}
		in := w.public[a.Asg-1]
		if w.desk != nil && !a.Base {
			in = w.onDesk(&w.s.Asgs[a.Asg-1], false)
		} else if w.apart {
			in = fill[E](&w.s.Asgs[a.Asg-1], false)
		}
		before, beforePf := snapAssign(in), snapProof(pf)
		pan, what := attempt(func() { ev.Acc = p.vrf.Verify(in, pf) })
		if pan {
			ev.Res, ev.What = "panic", what
		}
		ev.Intact = bytes.Equal(before, snapAssign(in)) && bytes.Equal(beforePf, snapProof(pf)) && p.def.constsIntact()
	}
	return ev
}

func runSession[E bignum.Uint[E]](s *Scenario) any {
	rec := &SessionRecord{Id: s.Id, Field: s.Field, Circs: s.Circs, Asgs: s.Asgs}
	w := newWorld[E](s)
	if (s.Id%3 != 0) == (len(s.Acts) > 0 && s.Acts[0].Base) { // two thirds of the histories, one third of the others
		w.desk = map[string]instance[E]{}
	}
	for i, a := range s.Acts {
		ev := w.do(i)
		rec.Ev = append(rec.Ev, ev)
		if a.Op == "compile" && ev.Res != "ok" {
			break
		}
	}
	return rec
}
