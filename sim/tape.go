package sim

import (
	"hash/fnv"
	"math/rand/v2"
)

// Tape is the only source of choice in a run. A run draws every decision (what to
// generate, who runs next, which fault hits where) from it. When searching, the draws
// come from one PRNG and are recorded; when replaying they come from the record.
// Zero is always the plainest choice, and what an exhausted record yields.
type Tape struct {
	rng    *rand.Rand
	rec    []uint32
	replay bool
	pos    int
	sink   func(v uint32) // sees each draw, for runs that may end the process
}

func mix(vals ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		h ^= v
		h ^= h >> 30
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 27
		h *= 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newTape(seed uint64, prop string, run int) *Tape {
	a := mix(seed, hashString(prop), uint64(run))
	return &Tape{rng: rand.New(rand.NewPCG(a, mix(a, 1)))}
}

func replayTape(rec []uint32) *Tape { return &Tape{rec: rec, replay: true} }

// N draws a number in [0, n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.replay {
		if t.pos < len(t.rec) {
			v = t.rec[t.pos] % uint32(n)
		}
		t.pos++
	} else {
		v = uint32(t.rng.IntN(n))
		t.rec = append(t.rec, v)
	}
	if t.sink != nil {
		t.sink(v)
	}
	return int(v)
}

// Range draws a number in [lo, hi].
func (t *Tape) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Chance is true one time in n.
func (t *Tape) Chance(n int) bool { return t.N(n) == n-1 }

// Bool is a fair coin.
func (t *Tape) Bool() bool { return t.N(2) == 1 }

// Pick draws an index, weighted.
func (t *Tape) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Rand draws a seed for a generator of bulk detail (payload bytes, fragment sizes).
// Zero gives a generator that only returns zeros, so that bulk detail shrinks away.
func (t *Tape) Rand() *Rng {
	s := t.N(1 << 30)
	return newRng(uint64(s))
}

// Rng is a small PRNG for bulk detail.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) next() uint64 {
	if r.s == 0 {
		return 0
	}
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// tape makes a tape for a small part of a run, so that it takes one draw.
func (r *Rng) tape() *Tape {
	v := r.next()
	if v == 0 {
		return replayTape(nil)
	}
	return newTape(v, "part", 0)
}

func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

func (r *Rng) Fill(p []byte) {
	for i := range p {
		if r.s == 0 {
			p[i] = byte(i)
		} else if i%8 == 0 {
			v := r.next()
			for j := i; j < i+8 && j < len(p); j++ {
				p[j] = byte(v)
				v >>= 8
			}
		}
	}
}

// Bits draws a number of n bits, the ends of the range and round ones more often.
func (r *Rng) Bits(n uint) uint64 {
	v := r.next()
	if r.s != 0 {
		switch r.N(12) {
		case 0:
			v = 0
		case 1, 2:
			v = 1<<n - 1
		case 3:
			v = 1 << uint(r.N(int(n)))
		case 4:
			v = 1<<n - 1 - 1<<uint(r.N(int(n)))
		}
	}
	return v & (1<<n - 1)
}

// lookalikes are bytes that mean something elsewhere in a stream.
var lookalikes = [][]byte{
	{0, 0, 1, 0xba}, {0, 0, 1, 0xb9}, {0, 0, 1, 0xbb}, {0, 0, 1, 0xe0}, {0, 0, 1, 0xe0, 0, 4}, {0, 0, 1, 0xbe, 0, 0}, {0, 0, 1, 0xc0, 0, 0},
	{0, 0, 1}, {0, 0, 1, 0xb3}, {0, 0, 1, 0xb7}, {0, 0, 1, 0}, {0, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff},
	{0, 0}, {0}, {1}, {0xff}, {0x47}, {0x47, 0x40}, {0x47, 0x1f, 0xff, 0x10},
}

// Data fills p with what a payload may have: anything, and what looks like another part
// of a stream above all.
func (r *Rng) Data(p []byte) {
	r.Fill(p)
	if r.s == 0 || len(p) == 0 {
		return
	}
	switch r.N(16) {
	case 0: // all the same
		b := []byte{0, 0xff, 0x47, 1}[r.N(4)]
		for i := range p {
			p[i] = b
		}
	case 1, 2, 3, 4:
		for k := 1 + r.N(3); k > 0; k-- {
			l := lookalikes[r.N(len(lookalikes))]
			at := 0
			switch r.N(4) {
			case 0:
			case 1:
				if at = len(p) - len(l); at < 0 {
					at = 0
				}
			default:
				at = r.N(len(p))
			}
			copy(p[at:], l)
		}
	}
}
