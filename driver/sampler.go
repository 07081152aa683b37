package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// SmpAct is one call in a history of samplers. S names the sampler (or seed for those that create), K the kind.
type SmpAct struct {
	Op  string `json:"op"`
	S   int    `json:"s"`
	N   int    `json:"n"`   // bytes or repetitions
	Pat int    `json:"pat"` // previous content of the buffer
	A   int64  `json:"a"`   // bound = a * 2^e + b
	E   int    `json:"e"`
	B   int64  `json:"b"`
	K   int    `json:"k"` // classes of equal size to count
}

type SmpCase struct {
	Id    int      `json:"id"`
	Seeds [][]int  `json:"seeds"`
	Acts  []SmpAct `json:"acts,omitempty"`
	Ev    []SmpEv  `json:"ev"`
}

type SmpEv struct {
	SmpAct
	Pan   bool     `json:"pan"`
	Good  bool     `json:"good"` // length and error of Read, buffers and seeds intact
	Dig   string   `json:"dig"`  // digest of everything delivered
	Hex   string   `json:"hex"`  // the bytes delivered, little endian words
	Cnt   []int    `json:"cnt"`  // class counts
	Out   int      `json:"out"`  // samples outside the range
	Ones  []int    `json:"ones"` // per bit of a word
	Parts []string `json:"parts"`
}

func seedBytes(s []int) []byte {
	b := make([]byte, len(s))
	for i := range s {
		b[i] = byte(s[i])
	}
	return b
}

func countOnes(b []byte) []int {
	c := make([]int, 64)
	for i := 0; i+8 <= len(b); i += 8 {
		w := binary.LittleEndian.Uint64(b[i:])
		for j := range c {
			c[j] += int(w >> j & 1)
		}
	}
	return c
}

func runSampler(t *SmpCase) any {
	var us []*csprng.UniformSampler
	var gs []*csprng.RoundedGaussianSampler
	var ts []*csprng.TwinCDTGaussianSampler
	type kp struct {
		par jindo.Parameters
	}
	var pars []kp
	for i := range t.Acts {
		a := t.Acts[i]
		ev := SmpEv{SmpAct: a, Good: true, Cnt: []int{}, Ones: []int{}, Parts: []string{}}
		var got bytes.Buffer
		word := func(x uint64) { binary.Write(&got, binary.LittleEndian, x) }
		ev.Pan, _ = attempt(func() {
			switch a.Op {
			case "seeded":
				b := seedBytes(t.Seeds[a.S-1])
				us = append(us, csprng.NewUniformSamplerWithSeed(b))
				ev.Good = bytes.Equal(b, seedBytes(t.Seeds[a.S-1]))
				for i := range b { // the caller reuses the memory of its seed
					b[i] ^= 0x5a
				}
			case "fresh":
				us = append(us, csprng.NewUniformSampler())
			case "gseeded":
				b := seedBytes(t.Seeds[a.S-1])
				gs = append(gs, csprng.NewRoundedGaussianSamplerWithSeed(b))
			case "gfresh":
				gs = append(gs, csprng.NewRoundedGaussianSampler())
			case "tfresh":
				ts = append(ts, csprng.NewTwinCDTGaussianSampler(float64(a.N)))
			case "tcopy":
				ts = append(ts, ts[a.S-1].SafeCopy())
			case "read":
				buf := make([]byte, a.N+16)
				for i := range buf {
					switch a.Pat {
					case 0:
						buf[i] = 0
					case 1:
						buf[i] = 0xff
					default:
						buf[i] = byte(i*a.Pat + 7)
					}
				}
				guard := append([]byte(nil), buf...)
				n, err := us[a.S-1].Read(buf[8 : 8+a.N])
				ev.Good = n == a.N && err == nil && bytes.Equal(buf[:8], guard[:8]) && bytes.Equal(buf[8+a.N:], guard[8+a.N:])
				got.Write(buf[8 : 8+a.N])
			case "sample":
				for range a.N {
					word(us[a.S-1].Sample())
				}
			case "samplen":
				bound := new(big.Int).Lsh(big.NewInt(a.A), uint(a.E))
				bound.Add(bound, big.NewInt(a.B))
				ev.Cnt = make([]int, a.K)
				k := big.NewInt(int64(a.K))
				for range a.N {
					r := us[a.S-1].SampleN(bound.Uint64())
					word(r)
					x := new(big.Int).SetUint64(r)
					x.Mul(x, k).Div(x, bound)
					if c := x.Int64(); x.IsInt64() && c < int64(a.K) {
						ev.Cnt[c]++
					} else {
						ev.Out++
					}
				}
			case "float":
				ev.Cnt = make([]int, a.K)
				for range a.N {
					f := us[a.S-1].SampleFloat()
					fmt.Fprint(&got, f, ";")
					if c := int(f * float64(a.K)); f >= 0 && c < a.K {
						ev.Cnt[c]++
					} else {
						ev.Out++
					}
				}
			case "gsample":
				for range a.N {
					word(uint64(gs[a.S-1].Sample(0, float64(a.K))))
				}
			case "tsample":
				for range a.N {
					word(uint64(ts[a.S-1].Sample(0)))
				}
			case "params":
				if a.E == 1 { // where both moduli are the same
					pars = append(pars, kp{jindo.NewParameters[*Toy[m257]](a.N, a.K)})
				} else {
					pars = append(pars, kp{jindo.NewParameters[*zp110.Uint](a.N, a.K)})
				}
			case "key":
				p := pars[a.K-1].par
				b := seedBytes(t.Seeds[a.S-1])
				ck := jindo.NewCommitKey(p, b)
				ev.Good = bytes.Equal(b, seedBytes(t.Seeds[a.S-1]))
				var raw, raw2 bytes.Buffer
				ck.WriteRawTo(&raw)
				for i := range b {
					b[i] ^= 0x5a
				}
				ev.Cnt = make([]int, 8)
				add := func(polys [][]ring.Poly, r *ring.Ring) {
					for i := range polys {
						for _, q := range polys[i] {
							h := sha256.New()
							for l := range q.Coeffs {
								m := new(big.Int).SetUint64(r.SubRings[l].Modulus)
								for _, c := range q.Coeffs[l] {
									binary.Write(h, binary.LittleEndian, c)
									x := new(big.Int).SetUint64(c)
									x.Lsh(x, 3).Div(x, m)
									if v := x.Int64(); x.IsInt64() && v < 8 {
										ev.Cnt[v]++
									} else {
										ev.Out++
									}
								}
							}
							s := h.Sum(nil)
							got.Write(s)
							ev.Parts = append(ev.Parts, hex.EncodeToString(s[:8]))
						}
					}
				}
				add(ck.In, p.RingQ())
				add(ck.MLWE, p.RingQ())
				add(ck.Out, p.RingQOut())
				ck.WriteRawTo(&raw2)
				got.Write(raw.Bytes())
				ev.Good = ev.Good && bytes.Equal(raw.Bytes(), raw2.Bytes())
			}
		})
		d := sha256.Sum256(got.Bytes())
		ev.Dig = hex.EncodeToString(d[:8])
		if a.Op == "read" || a.Op == "sample" {
			ev.Hex = hex.EncodeToString(got.Bytes())
			ev.Ones = countOnes(got.Bytes())
		}
		t.Ev = append(t.Ev, ev)
		if ev.Pan {
			break
		}
	}
	t.Acts = nil
	return t
}
