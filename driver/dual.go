package main

import (
	crand "crypto/rand"
	"encoding/binary"
	"math/big"
	"sync"
)

// Tape provides the random draws of Dual elements: draw number i of a run has value Val(i) and derivative Dir(i).
type Tape struct {
	mu   sync.Mutex
	n    int
	Seed uint64 // values
	Run  uint64 // direction; 0: no direction
	Bump int    // draw whose value is one more; negative: none
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (t *Tape) draw() (v, d uint64) {
	t.mu.Lock()
	defer t.mu.Unlock()
	i := t.n
	t.n++
	v = splitmix(t.Seed + splitmix(uint64(i)))
	if i == t.Bump {
		v++
	}
	if t.Run != 0 {
		d = splitmix(splitmix(t.Seed^t.Run*0x1234567) + uint64(i))
	}
	return
}

// tape is set while a single worker runs.
var tape *Tape

// Dual is v + d*e with e^2 = 0 over a small prime field: d is the derivative of v along the direction of the tape.
type Dual[M Modulus] struct{ v, d uint64 }

func (z *Dual[M]) p() uint64               { var m M; return m.P() }
func (z *Dual[M]) New() *Dual[M]           { return new(Dual[M]) }
func (z *Dual[M]) Set(x *Dual[M]) *Dual[M] { *z = *x; return z }
func (z *Dual[M]) SetBytes(b []byte) *Dual[M] {
	return z.SetBigInt(new(big.Int).SetBytes(b))
}
func (z *Dual[M]) SetInt64(x int64) *Dual[M] {
	p := int64(z.p())
	z.v, z.d = uint64(((x%p)+p)%p), 0
	return z
}
func (z *Dual[M]) SetUint64(x uint64) *Dual[M] { z.v, z.d = x%z.p(), 0; return z }
func (z *Dual[M]) MustSetRandom() *Dual[M] {
	if tape != nil {
		v, d := tape.draw()
		z.v, z.d = v%z.p(), d%z.p()
		if v == ^uint64(0) {
			z.v = 0
		}
		return z
	}
	var b [8]byte
	crand.Read(b[:])
	z.v, z.d = binary.LittleEndian.Uint64(b[:])%z.p(), 0
	return z
}
func (z *Dual[M]) Slice(d []uint64)           { d[0] = z.v }
func (z *Dual[M]) BigInt(r *big.Int) *big.Int { return r.SetUint64(z.v) }
func (z *Dual[M]) SetBigInt(x *big.Int) *Dual[M] {
	z.v, z.d = new(big.Int).Mod(x, new(big.Int).SetUint64(z.p())).Uint64(), 0
	return z
}
func (z *Dual[M]) Marshal() []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], z.v)
	return b[:]
}
func (z *Dual[M]) Unmarshal(b []byte) { z.v, z.d = binary.BigEndian.Uint64(b)%z.p(), 0 }
func (z *Dual[M]) Limb() int          { return 1 }
func (z *Dual[M]) Add(a, b *Dual[M]) *Dual[M] {
	p := z.p()
	z.v, z.d = (a.v+b.v)%p, (a.d+b.d)%p
	return z
}
func (z *Dual[M]) Sub(a, b *Dual[M]) *Dual[M] {
	p := z.p()
	z.v, z.d = (a.v+p-b.v)%p, (a.d+p-b.d)%p
	return z
}
func (z *Dual[M]) Neg(a *Dual[M]) *Dual[M] {
	p := z.p()
	z.v, z.d = (p-a.v)%p, (p-a.d)%p
	return z
}
func (z *Dual[M]) Mul(a, b *Dual[M]) *Dual[M] {
	p := z.p()
	z.v, z.d = a.v*b.v%p, (a.v*b.d+a.d*b.v)%p
	return z
}
func (z *Dual[M]) Inverse(a *Dual[M]) *Dual[M] {
	p := z.p()
	r, b := uint64(1), a.v
	for e := p - 2; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * b % p
		}
		b = b * b % p
	}
	// 1/(v + d e) = 1/v - d/v^2 e
	z.d = (p - r*r%p*a.d%p) % p
	z.v = r
	return z
}
func (z *Dual[M]) Cmp(a *Dual[M]) int {
	switch {
	case z.v < a.v:
		return -1
	case z.v > a.v:
		return 1
	}
	return 0
}
