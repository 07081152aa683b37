package main

import (
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func isNil(x any) bool {
	v := reflect.ValueOf(x)
	return !v.IsValid() || v.Kind() == reflect.Pointer && v.IsNil()
}

func copyPolys(p []ring.Poly) []ring.Poly {
	out := make([]ring.Poly, len(p))
	for i := range p {
		out[i] = copyPoly(p[i])
	}
	return out
}

func copyPoly(p ring.Poly) ring.Poly {
	var q ring.Poly
	q.Coeffs = make([][]uint64, len(p.Coeffs))
	for j := range p.Coeffs {
		q.Coeffs[j] = append([]uint64(nil), p.Coeffs[j]...)
	}
	return q
}

func copyElem[E bignum.Uint[E]](e E) E {
	if isNil(e) {
		return e
	}
	return e.New().Set(e)
}

func copyVec[E bignum.Uint[E]](v []E) []E {
	out := make([]E, len(v))
	for i := range v {
		out[i] = copyElem(v[i])
	}
	return out
}

func copyCom(c *jindo.Commitment) *jindo.Commitment {
	return &jindo.Commitment{Value: copyPolys(c.Value)}
}

func copyOpening(pf *jindo.Proof) *jindo.Proof {
	return &jindo.Proof{InCommit: copyPolys(pf.InCommit), Partial: copyPolys(pf.Partial), PartialMask: copyPoly(pf.PartialMask),
		Encode: copyPolys(pf.Encode), MLWE: copyPolys(pf.MLWE)}
}

func copyProof[E bignum.Uint[E]](pf *buckler.Proof[E]) *buckler.Proof[E] {
	out := &buckler.Proof[E]{
		LinCheckMaskSum: copyElem(pf.LinCheckMaskSum), SumCheckMaskSum: copyElem(pf.SumCheckMaskSum),
		Evals: copyVec(pf.Evals), EvalProof: copyOpening(pf.EvalProof)}
	for i := range pf.Witness {
		out.Witness = append(out.Witness, copyCom(pf.Witness[i]))
	}
	return out
}

// site is one scalar component of a proof: a field element, or a polynomial with its ring.
type site[E bignum.Uint[E]] struct {
	name string
	i    int
	elem E
	poly ring.Poly
	ring *ring.Ring
}

// proofSites lists the components of pf, without the noise part of the opening.
func proofSites[E bignum.Uint[E]](pf *buckler.Proof[E], par jindo.Parameters) []site[E] {
	var out []site[E]
	for i := range pf.Witness {
		for j := range pf.Witness[i].Value {
			out = append(out, site[E]{name: "com", i: i, poly: pf.Witness[i].Value[j], ring: par.RingQOut()})
		}
	}
	for i := range pf.Evals {
		out = append(out, site[E]{name: "eval", i: i, elem: pf.Evals[i]})
	}
	if !isNil(pf.LinCheckMaskSum) {
		out = append(out, site[E]{name: "linsum", elem: pf.LinCheckMaskSum})
	}
	if !isNil(pf.SumCheckMaskSum) {
		out = append(out, site[E]{name: "sumsum", elem: pf.SumCheckMaskSum})
	}
	return append(out, openingSites[E](pf.EvalProof, par)...)
}

func openingSites[E bignum.Uint[E]](pf *jindo.Proof, par jindo.Parameters) []site[E] {
	var out []site[E]
	add := func(name string, ps []ring.Poly, r *ring.Ring) {
		for i := range ps {
			out = append(out, site[E]{name: name, i: i, poly: ps[i], ring: r})
		}
	}
	add("incommit", pf.InCommit, par.RingQOut())
	add("partial", pf.Partial, par.RingQ())
	add("partialmask", []ring.Poly{pf.PartialMask}, par.RingQ())
	add("encode", pf.Encode, par.RingQ())
	return out
}

// bump adds d to the component (to one of its residues at one index, if it is a polynomial).
func (s site[E]) bump(limb, idx int, d int64) {
	if s.ring == nil {
		var z E
		s.elem.Add(s.elem, z.New().SetInt64(d))
		return
	}
	limb %= len(s.poly.Coeffs)
	idx %= len(s.poly.Coeffs[limb])
	q := int64(s.ring.SubRings[limb].Modulus)
	s.poly.Coeffs[limb][idx] = (s.poly.Coeffs[limb][idx] + uint64((d%q+q)%q)) % uint64(q)
}

// tamperSome returns a copy of pf with one component changed, chosen by k.
func tamperSome[E bignum.Uint[E]](pf *buckler.Proof[E], par jindo.Parameters, k int) *buckler.Proof[E] {
	out := copyProof(pf)
	ss := proofSites(out, par)
	ss[k%len(ss)].bump(k/3, k*7, 1+int64(k%5))
	return out
}
