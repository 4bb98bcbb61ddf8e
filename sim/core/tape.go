// Package core is the deterministic simulator: one seed decides every choice
// of a run (workload, faults, random draws and thread schedule), and every
// choice is recorded so that a run can be replayed and minimised.
package core

// Streams keep independent kinds of choices apart, so that removing a fault
// while minimising does not shift the workload or the schedule.
const (
	Gen      = 0 // workload generation
	Fault    = 1 // fault injection and legal I/O variation
	Sched    = 2 // thread schedule
	Rand     = 3 // math/rand seam
	nStreams = 4
)

// StreamNames names the streams in replay files.
var StreamNames = [nStreams]string{"gen", "fault", "sched", "rand"}

// Tape is the source of all choices.
type Tape struct {
	state  [nStreams]uint64
	replay bool
	rec    [nStreams][]uint64
	pos    [nStreams]int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// Mix derives a seed from several numbers.
func Mix(v ...uint64) uint64 {
	s := uint64(0x243f6a8885a308d3)
	for _, x := range v {
		s ^= x
		s = splitmix(&s)
	}

	return s
}

// HashString derives a number from a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}

	return h
}

// NewTape makes a recording tape from a seed.
func NewTape(seed uint64) *Tape {
	t := new(Tape)
	for i := range t.state {
		t.state[i] = Mix(seed, uint64(i)+1)
	}

	return t
}

// NewReplay makes a tape that plays back recorded choices. A choice past the
// end of a stream is 0, the simplest one.
func NewReplay(rec [][]uint64) *Tape {
	t := &Tape{replay: true}
	for i := range rec {
		if i < nStreams {
			t.rec[i] = rec[i]
		}
	}

	return t
}

// Draw makes a choice in [0, bound).
func (t *Tape) Draw(stream int, bound uint64) uint64 {
	if bound == 0 {
		bound = 1
	}

	if t.replay {
		p := t.pos[stream]
		t.pos[stream]++

		if p < len(t.rec[stream]) {
			return t.rec[stream][p] % bound
		}

		return 0
	}

	v := splitmix(&t.state[stream]) % bound
	t.rec[stream] = append(t.rec[stream], v)
	t.pos[stream]++

	return v
}

// Record returns the choices made (or, in replay, those available up to the
// position reached).
func (t *Tape) Record() [][]uint64 {
	out := make([][]uint64, nStreams)

	for i := range out {
		n := t.pos[i]
		if n > len(t.rec[i]) {
			n = len(t.rec[i])
		}

		out[i] = append([]uint64(nil), t.rec[i][:n]...)
	}

	return out
}
