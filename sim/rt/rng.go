package rt

// Rng is splitmix64: small, seedable, and the same on every Go version.
type Rng struct{ s uint64 }

// NewRng returns a generator for the given stream of a seed.
func NewRng(seed uint64, stream string) *Rng {
	h := seed ^ 0x9e3779b97f4a7c15
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 0x100000001b3
	}
	r := &Rng{h}
	r.Uint64()
	return r
}

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Bool is true one time in n.
func (r *Rng) OneIn(n int) bool { return r.Intn(n) == 0 }

// Perm returns a permutation of [0,n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
