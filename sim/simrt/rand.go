package simrt

import "math"

// Rand is a splitmix64 stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) Rand { return Rand{seed} }

//go:norace
func (r *Rand) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

//go:norace
func (r *Rand) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// Exp is exponentially distributed with the given mean.
//
//go:norace
func (r *Rand) Exp(mean float64) float64 {
	return -mean * math.Log(1-r.Float())
}
