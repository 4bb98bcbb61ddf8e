package core

import (
	"errors"
	"fmt"
	"image"
	"runtime"
	"runtime/debug"
	"strings"
)

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Run is one simulated execution.
type Run struct {
	Tape *Tape
	Seed uint64

	Ticks    int64 // statements of the code under test executed: simulated time
	slept    int64 // simulated microseconds on top
	MaxTicks int64 // statements an operation may execute
	deadline int64
	MaxAlloc int64 // largest number of elements a single allocation may have
	Alloc    int64 // elements of all allocations of the code under test
	MaxTotal int64 // how far Alloc may get; 0: as far as it likes

	Faults Counts // faults that fired
	Probes Counts // rare conditions that were reached

	Viol   *Violation
	Broken string // the harness itself failed

	hash    uint64
	fhash   uint64
	Events  []string
	Trace   bool
	nEvents int

	sched *sched
	gap   int64
	late  int64

	Over      bool // the simulated process has ended
	RandMode  int  // how the math/rand seam answers
	rng       uint64
	RandDraws int
	Switches  int
	Choices   int    // scheduling points with more than one thread to choose from
	KnownHits Counts // known findings that showed
	picks     uint64
}

// cur is the run in progress. It is set and cleared while no code under test
// is running.
var cur *Run

// Cur returns the run in progress.
func Cur() *Run { return cur }

type abort struct{}

// Crash is the value a simulated process crash unwinds with.
type Crash struct{}

// NewRun prepares a run.
func NewRun(seed uint64, tape *Tape) *Run {
	return &Run{
		Tape:     tape,
		Seed:     seed,
		MaxTicks: 2_000_000_000,
		deadline: 2_000_000_000,
		MaxAlloc: 1 << 26,
		hash:     14695981039346656037,
		fhash:    14695981039346656037,
		picks:    14695981039346656037,
	}
}

// Begin makes r the run in progress.
func (r *Run) Begin() { cur = r }

// End ends the run in progress.
func (r *Run) End() { cur = nil }

// Event records something that happened. It never influences the run.
func (r *Run) Event(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)

	for i := 0; i < len(s); i++ {
		r.hash = (r.hash ^ uint64(s[i])) * 1099511628211
	}

	r.hash = (r.hash ^ '\n') * 1099511628211
	r.nEvents++

	if r.Trace {
		if len(r.Events) < 600 {
			r.Events = append(r.Events, s)
		}
	}
}

// FaultFired counts a fault that took effect.
func (r *Run) FaultFired(kind string, format string, args ...interface{}) {
	r.Faults.Inc(kind)

	s := kind + " " + fmt.Sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		r.fhash = (r.fhash ^ uint64(s[i])) * 1099511628211
	}

	r.Event("FAULT %s", s)
}

// Probe counts a rare condition.
func (r *Run) Probe(name string) { r.Probes.Inc(name) }

// Hash identifies everything that was recorded of the run.
func (r *Run) Hash() uint64 { return r.hash }

// FaultHash identifies the fault trace.
func (r *Run) FaultHash() uint64 { return r.fhash }

// ScheduleHash identifies the interleaving.
func (r *Run) ScheduleHash() uint64 { return r.picks }

// NumFaults is the number of faults that fired.
func (r *Run) NumFaults() int {
	n := 0
	for _, c := range r.Faults {
		n += c.N
	}

	return n
}

// Violate records the first violation of the run.
func (r *Run) Violate(class, format string, args ...interface{}) {
	if r.Viol == nil {
		r.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		r.Event("VIOLATION %s: %s", class, r.Viol.Msg)
	}
}

// Draws.

// N draws a workload choice in [0, n).
func (r *Run) N(n int) int { return int(r.Tape.Draw(Gen, uint64(n))) }

// Bool draws a workload choice that is true once in n.
func (r *Run) Bool(n int) bool { return r.Tape.Draw(Gen, uint64(n)) == uint64(n)-1 }

// F draws a fault choice in [0, n).
func (r *Run) F(n int) int { return int(r.Tape.Draw(Fault, uint64(n))) }

// F64 draws a fault choice in [0, n).
func (r *Run) F64(n int64) int64 { return int64(r.Tape.Draw(Fault, uint64(n))) }

// FBool draws a fault choice that is true once in n.
func (r *Run) FBool(n int) bool { return r.Tape.Draw(Fault, uint64(n)) == uint64(n)-1 }

// How the math/rand seam answers.
const (
	RandTape     = iota // every draw is a choice of the tape
	RandExtremes        // mostly the smallest and largest numbers
	RandSeeded          // a generator with a seed, as in real use
)

// Reseed makes the draws that follow those of a seed.
func (r *Run) Reseed(seed uint64) {
	r.RandMode = RandSeeded
	r.rng = seed
}

// R draws for the math/rand seam.
func (r *Run) R(n uint64) uint64 {
	r.RandDraws++

	if r.RandMode == RandSeeded {
		// Modulo bias is far below what is looked for.
		return splitmix(&r.rng) % n
	}

	if r.RandMode == RandExtremes {
		switch r.Tape.Draw(Rand, 4) {
		case 1:
			return 0
		case 2:
			return n - 1
		}
	}

	return r.Tape.Draw(Rand, n)
}

// Y is inserted before every statement of the code under test.
func Y(site int32) {
	r := cur
	if r == nil {
		return
	}

	r.Ticks++

	if r.Ticks > r.deadline {
		r.outOfTime()
	}

	if r.sched != nil {
		r.gap--

		if r.gap <= 0 {
			r.sched.preempt(site)
		}
	}
}

// S is inserted instead of Y before a statement that uses what threads may
// share. It makes a preemption there, or soon after, more likely.
func S(site int32) {
	if r := cur; r != nil && r.sched != nil {
		r.sched.shared()
	}

	Y(site)
}

func (r *Run) outOfTime() {
	if r.late == 0 {
		r.Violate("no-progress", "the operation executed %d statements without finishing", r.MaxTicks)

		if r.sched != nil {
			r.sched.aborting = true
		}
	} else if r.Ticks < r.late {
		return
	}

	// Code that runs while unwinding may take some more steps, not for ever.
	r.late = r.Ticks + 1_000_000

	panic(abort{})
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Cap watches the size given to an allocation of the code under test.
func Cap[T integer](n T) T {
	if n > 0 {
		wanted(uint64(n))
	}

	return n
}

func wanted(n uint64) {
	r := cur
	if r == nil {
		return
	}

	switch {
	case n > uint64(r.MaxAlloc):
		r.Violate("allocation", "an allocation of %d elements was requested", n)
	case r.MaxTotal > 0 && r.Alloc+int64(n) > r.MaxTotal:
		r.Violate("allocation", "allocations of more than %d elements were requested", r.MaxTotal)
	default:
		r.Alloc += int64(n)

		return
	}

	if r.sched != nil {
		r.sched.aborting = true
	}

	panic(abort{})
}

// Rect watches the size of an image allocation of the code under test.
func Rect(b image.Rectangle) image.Rectangle {
	if dx, dy := int64(b.Dx()), int64(b.Dy()); dx > 0 && dy > 0 {
		if dx > 1<<31 || dy > 1<<31 || dx*dy < 0 {
			Cap(int64(1) << 62)
		}

		Cap(dx * dy)
	}

	return b
}

// Result says how a guarded call ended.
type Result struct {
	Panic   interface{}
	Stack   string
	Crashed bool
	Aborted bool
}

// LastStack is the full stack of the last panic caught by Guard.
var LastStack string

// Guard runs f and says how it ended.
func Guard(f func()) (res Result) {
	done := false

	defer func() {
		if done {
			return
		}

		e := recover()

		switch e.(type) {
		case nil:
			// Goexit: let it continue, nothing to report.
			res.Aborted = true
		case abort:
			res.Aborted = true
		case Crash:
			res.Crashed = true
		default:
			res.Panic = e
			LastStack = string(debug.Stack())
			res.Stack = shortStack()
		}
	}()

	f()

	done = true

	return res
}

// shortStack names the functions of the code under test that were active.
func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")

	var fns []string

	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || !strings.Contains(l, "vimagination.zapto.org/limage") || strings.Contains(l, "/zzverif/") {
			continue
		}

		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}

		fns = append(fns, strings.TrimPrefix(l, "vimagination.zapto.org/"))

		if len(fns) == 6 {
			break
		}
	}

	return strings.Join(fns, " < ")
}

// PanicText renders a panic value without addresses.
func PanicText(v interface{}) string {
	var re runtime.Error

	if err, ok := v.(error); ok {
		if errors.As(err, &re) {
			return re.Error()
		}

		return err.Error()
	}

	return fmt.Sprint(v)
}

// Counts counts by name. It is not a map because the race detector watches maps
// even where it does not watch the code that uses them.
type Counts []Count

// Count is how often something happened.
type Count struct {
	Name string
	N    int
}

// Inc counts one more.
func (c *Counts) Inc(name string) {
	for i := range *c {
		if (*c)[i].Name == name {
			(*c)[i].N++

			return
		}
	}

	*c = append(*c, Count{name, 1})
}

// Get is the count of a name.
func (c Counts) Get(name string) int {
	for i := range c {
		if c[i].Name == name {
			return c[i].N
		}
	}

	return 0
}

// Done reports whether the run already has a verdict and should stop.
func (r *Run) Done() bool { return r.Viol != nil || r.Over }

// PanicSeen records a panic of the code under test as a violation. A panic
// outside of it is the harness's own and is remembered as such.
func (r *Run) PanicSeen(where string, e interface{}, stack string) {
	if stack == "" {
		if r.Broken == "" {
			r.Broken = "panic in " + where + ": " + PanicText(e) + "\n" + LastStack
		}

		return
	}

	top := stack
	if i := strings.Index(top, " < "); i >= 0 {
		top = top[:i]
	}

	r.Violate("panic in "+top, "%s: panic: %s [%s]", where, PanicText(e), stack)
}

// Call runs code under test as a simulated thread and turns a panic into a
// violation.
func (r *Run) Call(where string, f func()) (res Result) {
	if r.sched == nil {
		res.Aborted = true

		r.Concurrent(func() { res = r.Call(where, f) })

		return res
	}

	r.deadline = r.Ticks + r.MaxTicks

	end := r.begin()
	res = Guard(f)

	end()

	r.deadline = r.Ticks + r.MaxTicks

	if res.Panic != nil {
		r.PanicSeen(where, res.Panic, res.Stack)
	}

	return res
}

// Try runs code under test that may be stopped by a panic of the caller's.
func (r *Run) Try(f func()) (res Result) {
	if r.sched == nil {
		res.Aborted = true

		r.Concurrent(func() { res = r.Try(f) })

		return res
	}

	r.deadline = r.Ticks + r.MaxTicks

	end := r.begin()
	res = Guard(f)

	end()

	r.deadline = r.Ticks + r.MaxTicks

	return res
}
