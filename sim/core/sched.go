package core

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
)

// The scheduler runs one goroutine at a time. A goroutine gives control back
// at every scheduling point: a lock operation, an I/O call, a wait, the start
// of a goroutine, and a preemption between any two statements of the code
// under test. Which goroutine continues is a choice of the tape.
//
// Waiting for control to come back is synctest.Wait, which returns once every
// other goroutine of the bubble is durably blocked: this also covers code that
// blocks on a channel, which the scheduler does not intercept.

type task struct {
	id     int
	name   string
	ch     chan struct{}
	parked bool
	done   bool
	where  string
	ready  func() bool // nil: always ready
	prio   uint64
	panic  interface{}
	stack  string
	op     *op // what it works for
}

// op is an operation of the code under test, with all the threads it starts.
type op struct{ returned bool }

type goidTask struct {
	id   uint64
	task *task
}

type sched struct {
	run      *Run
	mu       sync.Mutex // guards byGoid and tasks against natively woken goroutines
	tasks    []*task
	byGoid   []goidTask
	running  *task
	aborting bool
	strategy int
	change   int
	steps    int
	gaps     int
	sharp    int // preemptions around shared variables that are left
	finished bool
	end      chan struct{}
}

// Strategies.
const (
	stratRandom = iota
	stratPCT
	stratSerial
	nStrat
)

// Concurrent runs the given functions as simulated threads, together with any
// goroutine they start, until all have finished or the run was stopped.
func (r *Run) Concurrent(fns ...func()) {
	s := &sched{run: r, end: make(chan struct{})}

	// Every strategy draws its parameters here, so that a replay with all
	// zeros runs the threads one after the other without preemption.
	s.strategy = int(r.Tape.Draw(Sched, nStrat+1)) % nStrat
	s.gaps = int(r.Tape.Draw(Sched, 5))

	if r.Tape.Draw(Sched, 3) == 2 {
		s.sharp = 120
	}

	r.sched = s
	r.gap = s.nextGap()

	for n, f := range fns {
		s.spawn(fmt.Sprintf("T%d", n), f)
	}

	s.loop()

	r.sched = nil
}

// nextGap draws after how many statements the running thread is preempted.
func (s *sched) nextGap() int64 {
	switch s.gaps {
	case 0:
		return 1 << 40
	}

	k := s.run.Tape.Draw(Sched, 8)

	switch {
	case k == 0:
		return 100000
	case k < 3:
		return 1 + int64(s.run.Tape.Draw(Sched, 8))
	case k < 6:
		return 1 + int64(s.run.Tape.Draw(Sched, 80))
	default:
		return 1 + int64(s.run.Tape.Draw(Sched, 2000))
	}
}

func (s *sched) current() *task {
	hide()
	defer unhide()

	s.mu.Lock()
	defer s.mu.Unlock()

	id := goid()

	for i := range s.byGoid {
		if s.byGoid[i].id == id {
			return s.byGoid[i].task
		}
	}

	return nil
}

func (s *sched) spawn(name string, f func()) *task {
	hide()
	s.mu.Lock()
	t := &task{id: len(s.tasks), name: name, ch: make(chan struct{}, 1), parked: true, where: "start"}
	t.prio = 1 + s.run.Tape.Draw(Sched, 1<<20)
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	unhide()

	go func() {
		id := goid()

		hide()
		s.mu.Lock()
		s.byGoid = append(s.byGoid, goidTask{id, t})
		s.mu.Unlock()
		unhide()

		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case abort, Crash:
				case interface{ ByCaller() }: // ends a real process
					s.run.Over = true
					s.aborting = true
					s.run.Probe("process-ended-by-caller")
				default:
					t.panic = e
					LastStack = string(debug.Stack())
					t.stack = shortStack()

					s.run.PanicSeen("thread "+t.name, e, t.stack)
					s.aborting = true
				}
			}

			hide()
			s.mu.Lock()
			t.done = true
			for i := range s.byGoid {
				if s.byGoid[i].id == id {
					s.byGoid[i] = s.byGoid[len(s.byGoid)-1]
					s.byGoid = s.byGoid[:len(s.byGoid)-1]

					break
				}
			}
			s.mu.Unlock()

			if Race { // the detector soon forgets what ended threads did
				<-s.end
			}

			unhide()
		}()

		hide()
		<-t.ch
		unhide()

		if s.aborting {
			return
		}

		f()
	}()

	return t
}

// park gives control back until the scheduler picks the thread again.
func (s *sched) park(t *task, where string, ready func() bool) {
	if s.aborting {
		runtime.Goexit()
	}

	hide()
	s.mu.Lock()
	t.where = where
	t.ready = ready
	t.parked = true
	s.mu.Unlock()

	<-t.ch
	unhide()

	if s.aborting {
		runtime.Goexit()
	}
}

func (s *sched) preempt(site int32) {
	t := s.current()
	s.run.gap = 1 << 40

	if t == nil || s.aborting {
		return
	}

	if s.alone() {
		s.run.gap = s.nextGap()

		return
	}

	s.park(t, "", nil)

	s.run.gap = s.nextGap()
	_ = site
}

// alone reports whether there is nobody else to run.
func (s *sched) alone() bool {
	n := 0

	for _, t := range s.tasks {
		if !t.done {
			n++
		}
	}

	return n <= 1
}

// shared is called before a statement that uses what threads may share.
func (s *sched) shared() {
	if s.sharp == 0 || s.run.gap < 16 || s.aborting || s.alone() {
		return
	}

	if k := s.run.Tape.Draw(Sched, 12); k > 3 {
		s.sharp--
		s.run.gap = int64(k - 3)
	}
}

func (s *sched) loop() {
	r := s.run

	for {
		synctest.Wait()

		hide()
		s.mu.Lock()

		var (
			live, blocked int
			runnable      []*task
		)

		for _, t := range s.tasks {
			if t.done {
				continue
			}

			live++

			if !t.parked {
				blocked++ // blocked on a channel or the like

				continue
			}

			if s.aborting || t.ready == nil || t.ready() {
				runnable = append(runnable, t)
			}
		}

		s.mu.Unlock()
		unhide()

		if live == 0 {
			break
		}

		if len(runnable) == 0 {
			if s.aborting {
				break // what is left is blocked natively and is abandoned
			}

			var w []string

			for _, t := range s.tasks {
				if !t.done {
					where := t.where
					if !t.parked {
						where = "a channel or other native wait"
					}

					w = append(w, t.name+" at "+where)
				}
			}

			r.Violate("deadlock", "every thread is blocked: %s", strings.Join(w, "; "))
			s.aborting = true

			continue
		}

		t := s.pick(runnable)

		s.steps++

		if s.running != t {
			r.Switches++
		}

		s.running = t

		if len(runnable) > 1 {
			r.Choices++
			r.picks = (r.picks ^ uint64(t.id+1)) * 1099511628211
			r.picks = (r.picks ^ uint64(len(runnable))) * 1099511628211
		}

		hide()
		s.mu.Lock()
		t.parked = false
		s.mu.Unlock()

		t.ch <- struct{}{}
		unhide()
	}

	if !s.aborting {
		s.finished = true
	}

	if Race {
		hide()
		close(s.end)
		unhide()
		synctest.Wait() // what the threads did comes before what follows
	}
}

func (s *sched) pick(runnable []*task) *task {
	if len(runnable) == 1 || s.aborting {
		return runnable[0]
	}

	// The running thread first: choice 0 means no switch.
	sort.SliceStable(runnable, func(i, j int) bool {
		if (runnable[i] == s.running) != (runnable[j] == s.running) {
			return runnable[i] == s.running
		}

		return runnable[i].id < runnable[j].id
	})

	switch s.strategy {
	case stratPCT:
		best := runnable[0]
		for _, t := range runnable {
			if t.prio > best.prio {
				best = t
			}
		}

		// A change point drops the priority of the thread that would run.
		if s.run.Tape.Draw(Sched, 24) == 23 {
			s.change++
			best.prio = 0

			for _, t := range runnable {
				if t.prio > best.prio {
					best = t
				}
			}
		}

		return best
	case stratSerial:
		if runnable[0] == s.running && s.run.Tape.Draw(Sched, 64) != 63 {
			return runnable[0]
		}
	}

	return runnable[s.run.Tape.Draw(Sched, uint64(len(runnable)))]
}

// Point is a scheduling point of the simulated environment (an I/O call).
func (r *Run) Point(where string) {
	s := r.sched
	if s == nil {
		return
	}

	if s.aborting {
		if s.current() != nil {
			runtime.Goexit()
		}

		return
	}

	t := s.current()
	if t == nil || s.alone() {
		return
	}

	s.park(t, where, nil)
}

// begin starts an operation; what it returns ends it.
func (r *Run) begin() func() {
	t := r.sched.current()
	if t == nil || t.op != nil {
		return func() {}
	}

	o := new(op)
	t.op = o

	return func() { o.returned, t.op = true, nil }
}

// Late says whether the operation the current thread works for has returned.
func (r *Run) Late() bool {
	if r.sched == nil {
		return false
	}

	t := r.sched.current()

	return t != nil && t.op != nil && t.op.returned
}

// Pending says whether threads that the current operation started are running.
func (r *Run) Pending() bool {
	if r.sched == nil {
		return false
	}

	me := r.sched.current()
	if me == nil || me.op == nil {
		return false
	}

	for _, t := range r.sched.tasks {
		if t != me && t.op == me.op && !t.done {
			return true
		}
	}

	return false
}

// Thread names the current simulated thread.
func (r *Run) Thread() string {
	if r.sched == nil {
		return "main"
	}

	if t := r.sched.current(); t != nil {
		return t.name
	}

	return "?"
}

// Stopping reports whether the run is being torn down.
func (r *Run) Stopping() bool { return r.sched != nil && r.sched.aborting }

// WaitUntil blocks the current thread until ready reports true.
func WaitUntil(where string, ready func() bool) {
	r := cur
	if r == nil {
		return
	}

	if s := r.sched; s != nil {
		if t := s.current(); t != nil {
			if (ready == nil || ready()) && s.alone() && !s.aborting {
				return
			}

			s.park(t, where, ready)

			return
		}
	}

	// Nobody else runs.
	if ready != nil && !ready() {
		r.Violate("deadlock", "blocked for ever at %s", where)

		panic(abort{})
	}
}

// InThread reports whether the caller is a simulated thread.
func InThread() bool {
	return cur != nil && cur.sched != nil && cur.sched.current() != nil
}

// TearingDown reports whether simulated threads are being unwound.
func TearingDown() bool { return cur != nil && cur.sched != nil && cur.sched.aborting }

// Go replaces the go statement: the function value and the arguments have
// been evaluated by the caller.
func Go(f interface{}, args ...interface{}) { goCall(f, args, false) }

// GoSlice replaces a go statement whose last argument is spread.
func GoSlice(f interface{}, args ...interface{}) { goCall(f, args, true) }

func goCall(f interface{}, args []interface{}, spread bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))

	for i, a := range args {
		var pt reflect.Type

		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1 && !spread:
			pt = ft.In(ft.NumIn() - 1).Elem()
		default:
			pt = ft.In(i)
		}

		v := reflect.ValueOf(a)

		switch {
		case a == nil:
			v = reflect.Zero(pt)
		case !v.Type().AssignableTo(pt) && v.Type().ConvertibleTo(pt):
			v = v.Convert(pt)
		}

		in[i] = v
	}

	call := func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}

	r := cur
	if r == nil || r.sched == nil {
		go call()

		return
	}

	s := r.sched

	parent := s.current()
	if parent == nil {
		go call()

		return
	}

	n := 0

	for _, t := range s.tasks {
		if strings.HasPrefix(t.name, parent.name+".") && !strings.Contains(t.name[len(parent.name)+1:], ".") {
			n++
		}
	}

	s.spawn(fmt.Sprintf("%s.%d", parent.name, n), call).op = parent.op
	r.Point("go")
}

// MapPair is one entry of a map that is being ranged over.
type MapPair[K comparable, V any] struct {
	Key K
	Val V
}

// MapPairs replaces ranging over a map: the order is a choice of the tape.
func MapPairs[M ~map[K]V, K comparable, V any](m M) []MapPair[K, V] {
	ps := make([]MapPair[K, V], 0, len(m))

	for k, v := range m {
		ps = append(ps, MapPair[K, V]{k, v})
	}

	r := cur
	if r == nil || len(ps) < 2 {
		return ps
	}

	names := make(map[K]string, len(ps))
	for _, p := range ps {
		names[p.Key] = fmt.Sprintf("%v", p.Key)
	}

	sort.SliceStable(ps, func(i, j int) bool { return names[ps[i].Key] < names[ps[j].Key] })

	for i := 0; i < len(ps)-1; i++ {
		j := i + int(r.Tape.Draw(Sched, uint64(len(ps)-i)))
		ps[i], ps[j] = ps[j], ps[i]
	}

	return ps
}
