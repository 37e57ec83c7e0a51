package main

// Deterministic PRNG (splitmix64). Every random choice of the harness comes
// from a value derived from (VERIF_SEED, property, case index), so a case can
// be replayed from these three numbers alone.

type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(seed uint64, label string, idx uint64) *Rng {
	h := mix(seed + 0x9e3779b97f4a7c15)
	for i := 0; i < len(label); i++ {
		h = mix(h ^ uint64(label[i])*0x100000001b3)
	}
	return &Rng{s: mix(h ^ mix(idx+0x1234567))}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a value in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P returns true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// P1000 returns true with probability n/1000.
func (r *Rng) P1000(n int) bool { return r.N(1000) < n }

func (r *Rng) Pick(ss ...string) string { return ss[r.N(len(ss))] }

func (r *Rng) PickInt(ns ...int) int { return ns[r.N(len(ns))] }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Size returns a size that is usually small but sometimes near one of the
// given boundaries.
func (r *Rng) Size(small int, boundaries ...int) int {
	if len(boundaries) > 0 && r.P(35) {
		n := boundaries[r.N(len(boundaries))] + r.Range(-2, 2)
		if n < 0 {
			n = 0
		}
		return n
	}
	return r.N(small + 1)
}

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}

func fnv64(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

// Perm returns a random permutation of the first n numbers.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
