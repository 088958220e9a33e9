package main

import (
	"hash/fnv"
	"math/rand"
)

// Src is the source of every random choice of a case: a recorded choice sequence.
type Src struct {
	rng    *rand.Rand
	Rec    []uint32 // choices made
	replay []uint32
	isRep  bool
}

func NewSrc(seed int64) *Src { return &Src{rng: rand.New(rand.NewSource(seed))} }
func ReplaySrc(c []uint32) *Src {
	return &Src{replay: c, isRep: true}
}

// N returns a choice in [0,n). 0 is the simplest.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.isRep {
		if len(s.Rec) < len(s.replay) {
			v = int(s.replay[len(s.Rec)]) % n
		}
	} else {
		v = s.rng.Intn(n)
	}
	s.Rec = append(s.Rec, uint32(v))
	return v
}

// Range returns lo..hi inclusive.
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability a/b (and "false" is the simple value).
func (s *Src) P(a, b int) bool { return s.N(b) >= b-a }

// Pick picks by weight.
func (s *Src) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := s.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func pick[T any](s *Src, l []T) T { return l[s.N(len(l))] }

func shuffle[T any](s *Src, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		l[i], l[j] = l[j], l[i]
	}
}

func caseSeed(seed int64, prop string, idx int) int64 {
	h := fnv.New64a()
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(seed >> (8 * i))
		b[8+i] = byte(int64(idx) >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(prop))
	return int64(h.Sum64() & 0x7fffffffffffffff)
}
