package main

import (
	crand "crypto/rand"
	"io"
	"math"
	"math/rand"

	"github.com/sp301415/ringo-snark/math/csprng"
)

// GaussCase says what to sample, and how to count it.
type GaussCase struct {
	Id     int    `json:"id"`
	Kind   string `json:"kind"`
	Scale  string `json:"scale"`
	H      int    `json:"h"`
	Copy   bool   `json:"copy"`
	Seed   int64  `json:"seed"`
	A      int64  `json:"a"`
	K      int64  `json:"k"`
	KK     int64  `json:"kk"`
	X      int    `json:"x"`
	D1     int64  `json:"d1"`
	D2     int64  `json:"d2"`
	Points int    `json:"points"`
	Step   int    `json:"step"`
	O      int    `json:"o"`
	Lo     int64  `json:"lo"`
	Hi     int64  `json:"hi"`
	Mid    int    `json:"mid"`
	Cnt    []int  `json:"cnt"`
	Out    int    `json:"out"`
	Pairs  int    `json:"pairs"`
	Pan    bool   `json:"pan"`
	Again  bool   `json:"again"` // the same seed, the same samples
	Apart  bool   `json:"apart"` // a copy delivers others than the original
	Guard  bool   `json:"guard"` // deviations are reported, and refused where documented
}

// runGauss samples with the entropy of the system replaced by a seeded source, so that runs repeat.
func runGauss(t *GaussCase) any {
	old := crand.Reader
	crand.Reader = io.Reader(rand.New(rand.NewSource(t.Seed)))
	defer func() { crand.Reader = old }()
	t.Cnt, t.Again, t.Apart, t.Guard = make([]int, t.Hi-t.Lo+1), true, true, true

	root := math.Sqrt(float64(t.D1) * float64(t.D2) / 2)
	center, dev := float64(t.A)+float64(t.K)/float64(t.KK), root/float64(t.KK)
	base, width := t.A, int64(1)
	switch {
	case t.Scale == "wide":
		width = int64(1) << t.X
		dev = root * float64(width) / 16
		center = float64(t.A)
	case t.Kind == "rounded":
		dev = root / float64(2*t.KK)
	}
	differ := func(f, g func() int64) bool {
		for i := 0; i < 200; i++ {
			if f() != g() {
				return true
			}
		}
		return false
	}

	var draw func() int64
	t.Pan, _ = attempt(func() {
		switch t.Kind {
		case "twin", "coset":
			s := csprng.NewTwinCDTGaussianSampler(dev)
			t.Guard = s.StdDev() == dev
			if t.Copy {
				c := s.SafeCopy()
				t.Guard = t.Guard && c.StdDev() == dev
				t.Apart = differ(func() int64 { return s.Sample(center) }, func() int64 { return c.Sample(center) })
				s = c
			}
			if t.Kind == "twin" {
				draw = func() int64 { return s.Sample(center) }
			} else {
				// A coset of the integers around zero is an integer away from its centre.
				draw = func() int64 {
					x := s.SampleCoset(-center) + center
					if r := math.Round(x); math.Abs(x-r) > 1.0/4096 {
						t.Guard = false
					}
					return int64(math.Round(x))
				}
			}
		case "cosac":
			s := csprng.NewCOSACSampler()
			draw = func() int64 { return s.Sample(center, dev) }
		case "rounded":
			s := csprng.NewRoundedGaussianSampler()
			draw = func() int64 { return s.Sample(center, dev) }
			for _, d := range []float64{0, -1, -dev} {
				pan, _ := attempt(func() { s.Sample(center, d) })
				t.Guard = t.Guard && pan
			}
			seed := []byte{byte(t.Seed), byte(t.Seed >> 8), byte(t.Id)}
			x, y := csprng.NewRoundedGaussianSamplerWithSeed(seed), csprng.NewRoundedGaussianSamplerWithSeed(append([]byte{}, seed...))
			z := csprng.NewRoundedGaussianSamplerWithSeed(append([]byte{1}, seed...))
			wide := 1e9 * dev
			t.Again = !differ(func() int64 { return x.Sample(center, wide) }, func() int64 { return y.Sample(center, wide) })
			t.Apart = differ(func() int64 { return x.Sample(center, wide) }, func() int64 { return z.Sample(center, wide) })
		}
		var last bool
		for i := 0; i < 1<<(2*t.H); i++ {
			b := draw() - base
			if width > 1 {
				b >>= t.X
			}
			if b < t.Lo || b > t.Hi {
				t.Out++
				last = false
				continue
			}
			t.Cnt[b-t.Lo]++
			up := int(b-t.Lo) >= t.Mid
			if up && last {
				t.Pairs++
			}
			last = up
		}
	})
	return t
}
