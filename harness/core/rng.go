package core

// RNG is a splitmix64 generator: every random choice of the harness comes from
// one, seeded from VERIF_SEED, the property and the batch number.
type RNG struct{ s uint64 }

func NewRNG(parts ...uint64) *RNG {
	r := &RNG{0x2545f4914f6cdd1d}
	for _, p := range parts {
		r.s ^= p
		r.U()
	}
	return r
}

func (r *RNG) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// R is uniform in [a,b].
func (r *RNG) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *RNG) P(p int) bool { return r.N(100) < p }

func (r *RNG) F() float64 { return float64(r.U()>>11) / (1 << 53) }

func Pick[T any](r *RNG, v ...T) T { return v[r.N(len(v))] }

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
