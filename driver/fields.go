package main

import (
	crand "crypto/rand"
	"encoding/binary"
	"math/big"

	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
)

// Modulus names the modulus of a toy field.
type Modulus interface{ P() uint64 }

// Toy is a small prime field, used where the specification computes in the field itself.
type Toy[M Modulus] struct{ v uint64 }

func (z *Toy[M]) p() uint64             { var m M; return m.P() }
func (z *Toy[M]) New() *Toy[M]          { return new(Toy[M]) }
func (z *Toy[M]) Set(x *Toy[M]) *Toy[M] { gate(); z.v = x.v; return z }
func (z *Toy[M]) SetBytes(b []byte) *Toy[M] {
	return z.SetBigInt(new(big.Int).SetBytes(b))
}
func (z *Toy[M]) SetInt64(x int64) *Toy[M] {
	p := int64(z.p())
	z.v = uint64(((x % p) + p) % p)
	return z
}
func (z *Toy[M]) SetUint64(x uint64) *Toy[M] { gate(); z.v = x % z.p(); return z }
func (z *Toy[M]) MustSetRandom() *Toy[M] {
	gate()
	var b [8]byte
	crand.Read(b[:])
	z.v = binary.LittleEndian.Uint64(b[:]) % z.p()
	return z
}
func (z *Toy[M]) Slice(d []uint64) { gate(); d[0] = z.v }
func (z *Toy[M]) BigInt(r *big.Int) *big.Int {
	gate()
	return r.SetUint64(z.v)
}
func (z *Toy[M]) SetBigInt(x *big.Int) *Toy[M] {
	gate()
	z.v = new(big.Int).Mod(x, new(big.Int).SetUint64(z.p())).Uint64()
	return z
}
func (z *Toy[M]) Marshal() []byte {
	gate()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], z.v)
	return b[:]
}
func (z *Toy[M]) Unmarshal(b []byte)       { z.v = binary.BigEndian.Uint64(b) % z.p() }
func (z *Toy[M]) Limb() int                { return 1 }
func (z *Toy[M]) Add(a, b *Toy[M]) *Toy[M] { gate(); z.v = (a.v + b.v) % z.p(); return z }
func (z *Toy[M]) Sub(a, b *Toy[M]) *Toy[M] { gate(); z.v = (a.v + z.p() - b.v) % z.p(); return z }
func (z *Toy[M]) Neg(a *Toy[M]) *Toy[M]    { gate(); z.v = (z.p() - a.v) % z.p(); return z }
func (z *Toy[M]) Mul(a, b *Toy[M]) *Toy[M] { gate(); z.v = a.v * b.v % z.p(); return z }
func (z *Toy[M]) Inverse(a *Toy[M]) *Toy[M] {
	gate()
	p := z.p()
	r, b := uint64(1), a.v
	for e := p - 2; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * b % p
		}
		b = b * b % p
	}
	z.v = r
	return z
}
func (z *Toy[M]) Cmp(a *Toy[M]) int {
	switch {
	case z.v < a.v:
		return -1
	case z.v > a.v:
		return 1
	}
	return 0
}

type m257 struct{}
type m7681 struct{}
type m12289 struct{}
type m40961 struct{}
type m25601 struct{}

func (m257) P() uint64   { return 257 }
func (m7681) P() uint64  { return 7681 }
func (m12289) P() uint64 { return 12289 }
func (m40961) P() uint64 { return 40961 }
func (m25601) P() uint64 { return 25601 } // 160^2 + 1

// Rec is the 240-bit field of examples/bfv with a gate at every operation.
type Rec struct{ x bfvzp.Uint }

func (z *Rec) New() *Rec                  { return new(Rec) }
func (z *Rec) Set(a *Rec) *Rec            { gate(); z.x.Set(&a.x); return z }
func (z *Rec) SetBytes(b []byte) *Rec     { gate(); z.x.SetBytes(b); return z }
func (z *Rec) SetInt64(a int64) *Rec      { gate(); z.x.SetInt64(a); return z }
func (z *Rec) SetUint64(a uint64) *Rec    { gate(); z.x.SetUint64(a); return z }
func (z *Rec) MustSetRandom() *Rec        { gate(); z.x.MustSetRandom(); return z }
func (z *Rec) Slice(d []uint64)           { gate(); z.x.Slice(d) }
func (z *Rec) BigInt(r *big.Int) *big.Int { gate(); return z.x.BigInt(r) }
func (z *Rec) SetBigInt(a *big.Int) *Rec  { gate(); z.x.SetBigInt(a); return z }
func (z *Rec) Marshal() []byte            { gate(); return z.x.Marshal() }
func (z *Rec) Unmarshal(b []byte)         { gate(); z.x.Unmarshal(b) }
func (z *Rec) Limb() int                  { return z.x.Limb() }
func (z *Rec) Add(a, b *Rec) *Rec         { gate(); z.x.Add(&a.x, &b.x); return z }
func (z *Rec) Sub(a, b *Rec) *Rec         { gate(); z.x.Sub(&a.x, &b.x); return z }
func (z *Rec) Neg(a *Rec) *Rec            { gate(); z.x.Neg(&a.x); return z }
func (z *Rec) Mul(a, b *Rec) *Rec         { gate(); z.x.Mul(&a.x, &b.x); return z }
func (z *Rec) Inverse(a *Rec) *Rec        { gate(); z.x.Inverse(&a.x); return z }
func (z *Rec) Cmp(a *Rec) int             { gate(); return z.x.Cmp(&a.x) }
