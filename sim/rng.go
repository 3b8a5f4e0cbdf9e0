package main

// rng is splitmix64: the one source of random choices.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{}
	for _, p := range parts {
		r.s ^= p
		r.next()
	}
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	return z
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a number in [a,b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability x percent.
func (r *rng) p(x int) bool { return r.n(100) < x }

func pick[T any](r *rng, l []T) T { return l[r.n(len(l))] }

// weighted picks an index by weight.
func (r *rng) weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func shuffle[T any](r *rng, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := r.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}
