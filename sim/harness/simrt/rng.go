package simrt

// Rng is splitmix64: one seed, one exactly repeatable stream.
type Rng struct{ S uint64 }

//go:norace
func NewRng(seed uint64) *Rng { return &Rng{S: seed} }

//go:norace
func (r *Rng) U64() uint64 {
	r.S += 0x9e3779b97f4a7c15
	return mix(r.S)
}

//go:norace
func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash is a stateless draw: the same arguments give the same number whatever
// else happened, so that unrelated choices stay put while a replay is minimised.
//
//go:norace
func Hash(a, b, c uint64) uint64 {
	return mix(mix(mix(a+0x9e3779b97f4a7c15)^(b+0x7f4a7c159e3779b9)) ^ (c + 0x94d049bb133111eb))
}

//go:norace
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
