package simrt

import "math/bits"

// Rand is a small splittable PRNG (splitmix64), stable across Go versions.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Split derives an independent generator.
func (r *Rand) Split(label uint64) *Rand { return &Rand{mix(r.s ^ mix(label+0x1234567))} }

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}
func (r *Rand) Range(a, b int) int       { return a + r.Intn(b-a+1) }
func (r *Rand) Float() float64           { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Chance(p float64) bool    { return r.Float() < p }
func (r *Rand) Pick(n ...int) int        { return n[r.Intn(len(n))] }
func (r *Rand) PickS(s ...string) string { return s[r.Intn(len(s))] }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
