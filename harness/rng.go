package main

import "math"

// Rng is a small deterministic generator (splitmix64) so that every case is a
// pure function of the seed and the case label.
type Rng struct {
	s    uint64
	naps int // long pauses left to inject at the points where jitter is called
}

func NewRng(seed uint64, label string) *Rng {
	h := seed*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03
	for i := 0; i < len(label); i++ {
		h ^= uint64(label[i])
		h *= 0x100000001B3
		h ^= h >> 29
	}
	r := &Rng{s: h}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int        { return int(r.U64() % uint64(n)) }
func (r *Rng) Range(a, b int) int    { return a + r.Intn(b-a+1) }
func (r *Rng) F() float64            { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Norm() float64         { return math.Sqrt(-2*math.Log(1-r.F())) * math.Cos(2*math.Pi*r.F()) }
func (r *Rng) Chance(p float64) bool { return r.F() < p }
func Pick[T any](r *Rng, xs []T) T   { return xs[r.Intn(len(xs))] }
