package core

import "slices"

// Tape is the single source of every decision of a run. While searching it is
// filled from a seeded generator; while replaying it is read back. The value 0
// always stands for the simplest alternative (no fault, no switch, smallest),
// and a tape that has run out reads as zeros, so a shorter tape is always a
// legal, simpler run.
type Tape struct {
	Rec    []uint32
	pos    int
	state  uint64
	replay bool
	max    int // decisions a run may take
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewTape returns a tape filled from seed.
func NewTape(seed uint64) *Tape { return &Tape{state: seed, max: maxTape} }

// ReplayTape returns a tape that repeats rec.
func ReplayTape(rec []uint32) *Tape { return &Tape{Rec: rec, replay: true, max: maxTape} }

type tooLong struct{}

const maxTape = 1 << 21

func (t *Tape) draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.replay {
		if t.pos < len(t.Rec) {
			v = t.Rec[t.pos]
		}
		t.pos++
		if t.pos > t.max {
			panic(tooLong{})
		}
		return uint64(v) % n
	}
	t.state += 0x9e3779b97f4a7c15
	z := t.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	v = uint32((z >> 32) * (n) >> 32)
	t.Rec = append(t.Rec, v)
	t.pos++
	if t.pos > t.max {
		panic(tooLong{})
	}
	return uint64(v)
}

// reserve keeps the tape from growing for n decisions.
func (t *Tape) reserve(n int) {
	if !t.replay {
		t.Rec = slices.Grow(t.Rec, n)
	}
}

// Used is the part of the tape the run read.
func (t *Tape) Used() []uint32 {
	n := t.pos
	if n > len(t.Rec) {
		n = len(t.Rec)
	}
	return append([]uint32(nil), t.Rec[:n]...)
}

// Minimise shortens and lowers a failing tape while fails keeps reporting true.
func Minimise(tape []uint32, fails func([]uint32) ([]uint32, bool), more func() bool) []uint32 {
	best := append([]uint32(nil), tape...)
	try := func(c []uint32) bool {
		if !more() {
			return false
		}
		used, ok := fails(c)
		if !ok {
			return false
		}
		for len(used) > 0 && used[len(used)-1] == 0 {
			used = used[:len(used)-1]
		}
		if len(used) > len(best) || (len(used) == len(best) && !smaller(used, best)) {
			return false
		}
		best = append(best[:0:0], used...)
		return true
	}
	try(best)
	for round := 0; round < 8 && more(); round++ {
		before := len(best)
		sum := total(best)
		// cut the tail
		for n := len(best) / 2; n >= 1 && more(); n /= 2 {
			for len(best) > n && try(best[:len(best)-n]) {
			}
		}
		// delete spans
		for n := len(best) / 2; n >= 1 && more(); n /= 2 {
			for i := 0; i+n <= len(best) && more(); {
				c := append(append([]uint32(nil), best[:i]...), best[i+n:]...)
				if !try(c) {
					i += n
				}
			}
		}
		// zero spans
		for n := len(best) / 2; n >= 1 && more(); n /= 2 {
			for i := 0; i+n <= len(best) && more(); i += n {
				if total(best[i:i+n]) == 0 {
					continue
				}
				c := append([]uint32(nil), best...)
				for j := i; j < i+n; j++ {
					c[j] = 0
				}
				try(c)
			}
		}
		// lower single values
		for i := 0; i < len(best) && more(); i++ {
			for i < len(best) && best[i] > 0 && more() {
				v := best[i]
				done := true
				for _, w := range []uint32{v / 2, v - 1} {
					if w == v {
						continue
					}
					c := append([]uint32(nil), best...)
					c[i] = w
					if try(c) {
						done = false
						break
					}
				}
				if done {
					break
				}
			}
		}
		if len(best) == before && total(best) == sum {
			break
		}
	}
	return best
}

func total(t []uint32) (n uint64) {
	for _, v := range t {
		n += uint64(v)
	}
	return
}

func smaller(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
