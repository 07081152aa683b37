package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// ParCase asks for parameters; the rest records what derivation returned, in units the specification computes with:
// large integers in limbs of 12 bits (least significant first), logarithms to base 2 in thousandths.
type ParCase struct {
	Id     int    `json:"id"`
	Field  string `json:"field"`
	Target int    `json:"target"`
	Batch  int    `json:"batch"`
	Use    bool   `json:"use"`

	End   string  `json:"end"` // "ok", "panic", "late"
	Mod   []int64 `json:"mod"`
	Base  []int64 `json:"base"`
	Exp   int     `json:"exp"`
	Slots int     `json:"slots"`
	Rank  int     `json:"rank"`
	Rows  int     `json:"rows"`
	Cols  int     `json:"cols"`
	Bat   int     `json:"bat"`
	N     int     `json:"n"`
	NOut  int     `json:"nout"`
	Q     []QPar  `json:"q"`
	QOut  []QPar  `json:"qout"`
	In    int     `json:"in"`
	Out   int     `json:"out"`
	Mlwe  int     `json:"mlwe"`
	Dcmp  int     `json:"dcmp"`
	Chal  int64   `json:"chal"`
	ChalL int64   `json:"challog"`
	BatL  int64   `json:"batlog"`
	CutIn int64   `json:"cutin"`
	CutO  int64   `json:"cutout"`
	Res   int64   `json:"res"`
	ComN  int64   `json:"comn"`
	Std   []int64 `json:"std"` // encoding, its blinding, mask, its blinding, MLWE, its mask
	Sizes []int64 `json:"sizes"`

	Acc   bool `json:"acc"`   // a vector of full length committed, opened, verified
	False bool `json:"false"` // the same opening verified against another value
	Val   bool `json:"val"`   // the value is the polynomial's
	Again bool `json:"again"` // a second derivation gives the same
}

type QPar struct {
	M   []int64 `json:"m"`
	Log int64   `json:"log"`
	Pr  bool    `json:"pr"` // prime
}

func limbs12(x *big.Int) []int64 {
	out := []int64{}
	t, m := new(big.Int).Set(x), big.NewInt(4095)
	for t.Sign() > 0 {
		out = append(out, new(big.Int).And(t, m).Int64())
		t.Rsh(t, 12)
	}
	return out
}

func log1000(x float64) int64 {
	if !(x > 0) || math.IsInf(x, 0) {
		return -1000000
	}
	return int64(math.Round(1000 * math.Log2(x)))
}

func readParams(t *ParCase, p jindo.Parameters) {
	t.Base, t.Exp, t.Slots = limbs12(new(big.Int).SetUint64(p.Base())), p.Exp(), p.Slots()
	t.Rank, t.Rows, t.Cols, t.Bat = p.Rank(), p.Rows(), p.Cols(), p.Batch()
	t.In, t.Out, t.Mlwe, t.Dcmp = p.InMSISRank(), p.OutMSISRank(), p.MLWERank(), p.InCommitDecomposeLen()
	t.Chal, t.CutIn, t.CutO = int64(p.ChallengeBound()), int64(p.LogInCutOff()), int64(p.OutCutOff())
	t.ChalL, t.BatL = log1000(float64(t.Chal)), log1000(float64(t.Bat))
	t.Res, t.ComN = log1000(p.ResTwoNm()), log1000(p.InComDcmpTwoNm())
	for _, s := range []float64{p.EcdStdDev(), p.EcdBlindStdDev(), p.MaskStdDev(), p.MaskBlindStdDev(), p.MLWEStdDev(), p.MaskMLWEStdDev()} {
		t.Std = append(t.Std, log1000(s))
	}
	t.Sizes = []int64{log1000(p.CommitmentSize()), log1000(p.ProofSize()), log1000(p.Size())}
	if r := p.RingQ(); r != nil {
		t.N = r.N()
		for _, s := range r.SubRings {
			q := new(big.Int).SetUint64(s.Modulus)
			t.Q = append(t.Q, QPar{limbs12(q), log1000(float64(s.Modulus)), q.ProbablyPrime(20)})
		}
	}
	if r := p.RingQOut(); r != nil {
		t.NOut = r.N()
		for _, s := range r.SubRings {
			q := new(big.Int).SetUint64(s.Modulus)
			t.QOut = append(t.QOut, QPar{limbs12(q), log1000(float64(s.Modulus)), q.ProbablyPrime(20)})
		}
	}
}

func runParams[E bignum.Uint[E]](t *ParCase) any {
	t.Mod, t.Base, t.Q, t.QOut, t.Std, t.Sizes = []int64{}, []int64{}, []QPar{}, []QPar{}, []int64{}, []int64{}
	var z E
	p := z.New().SetInt64(-1).BigInt(new(big.Int))
	t.Mod = limbs12(p.Add(p, big.NewInt(1)))
	done := make(chan string, 1)
	var par jindo.Parameters
	go func() {
		pan, _ := attempt(func() { par = jindo.NewParameters[E](t.Target, t.Batch) })
		if pan {
			done <- "panic"
		} else {
			done <- "ok"
		}
	}()
	select {
	case t.End = <-done:
	case <-time.After(20 * time.Second):
		t.End = "late"
	}
	if t.End != "ok" {
		return t
	}
	if pan, _ := attempt(func() { readParams(t, par) }); pan {
		t.End = "panic"
		return t
	}
	again := &ParCase{}
	attempt(func() {
		readParams(again, jindo.NewParameters[E](t.Target, t.Batch))
		again.Id, again.Field, again.Target, again.Batch, again.Use, again.End, again.Mod = t.Id, t.Field, t.Target, t.Batch, t.Use, t.End, t.Mod
		t.Again = fmt.Sprint(*again) == fmt.Sprint(*t)
	})
	if !t.Use {
		return t
	}
	pan, _ := attempt(func() {
		crs := []byte("params")
		pr, vr := jindo.NewProver[E](par, crs), jindo.NewVerifier[E](par, crs)
		var vs [][]E
		var cs []*jindo.Commitment
		var os []*jindo.Opening
		x := z.New().MustSetRandom()
		var want []E
		for b := range t.Batch {
			v := make([]E, par.Rank())
			for i := range v {
				switch b % 3 {
				case 0:
					v[i] = z.New().MustSetRandom()
				case 1:
					v[i] = z.New().SetInt64(-1)
				default:
					v[i] = z.New().SetBigInt(new(big.Int).Rsh(p, 1)) // p is the modulus: half of it
				}
			}
			c, o := pr.Commit(v)
			vs, cs, os = append(vs, v), append(cs, c), append(os, o)
			y := z.New().SetInt64(0)
			for i := len(v) - 1; i >= 0; i-- {
				y.Mul(y, x)
				y.Add(y, v[i])
			}
			want = append(want, y)
		}
		ys, pf := pr.Evaluate(x, vs, cs, os)
		t.Val = same(ys, want)
		t.Acc = vr.Verify(x, cs, ys, pf)
		bad := append([]E(nil), ys...)
		k := len(bad) - 1
		bad[k] = z.New().Add(bad[k], z.New().SetInt64(1))
		t.False = vr.Verify(x, cs, bad, pf)
	})
	if pan {
		t.End = "panic"
	}
	return t
}
