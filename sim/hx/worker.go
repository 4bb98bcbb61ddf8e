//go:build go1.25

// Package hx is what the simulation harnesses share: the worker loop, the
// minimiser, the simulated disk, picture generation and comparison.
package hx

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Scenario is one simulated execution of a property's workload.
type Scenario func(r *core.Run)

// Scenarios by property.
var Scenarios = map[string]Scenario{}

// Replay is the content of a replay file.
type Replay struct {
	Property string              `json:"property"`
	Binary   string              `json:"binary"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	BaseSeed uint64              `json:"base_seed"`
	Index    int                 `json:"index"`
	Seed     uint64              `json:"seed"`
	Tape     map[string][]uint64 `json:"tape"`
	Original map[string]int      `json:"original_choices"`
	Tries    int                 `json:"minimiser_runs"`
	Trace    []string            `json:"trace"`
	Warmup   []int               `json:"warmup,omitempty"` // runs of the same base seed to execute before

	Full map[string][]uint64 `json:"full_tape,omitempty"` // for the driver
	Prev []int               `json:"prev,omitempty"`      // for the driver
}

// Report is what a worker tells the driver.
type Report struct {
	Runs      int            `json:"runs"`
	Ticks     int64          `json:"ticks"`
	Faults    map[string]int `json:"faults"`
	FaultRuns int            `json:"fault_runs"`
	Probes    map[string]int `json:"probes"`
	Known     map[string]int `json:"known"`
	Switches  int            `json:"switches"`
	Schedules []string       `json:"schedules"`
	FaultSeqs []string       `json:"fault_seqs"`
	Hashes    []string       `json:"hashes"`
	Digest    []string       `json:"digest,omitempty"`
	Samples   []string       `json:"samples"`
	Replay    *Replay        `json:"replay,omitempty"`
	Error     string         `json:"error,omitempty"`
	WallS     float64        `json:"wall_s"`
	Reran     int            `json:"reran"`
}

func now() float64 {
	var tv syscall.Timeval

	syscall.Gettimeofday(&tv)

	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

type outcome struct {
	run    *core.Run
	broken string // the harness itself failed
}

// execute runs one simulated execution.
func execute(prop string, seed uint64, tape *core.Tape, trace bool) outcome {
	r := core.NewRun(seed, tape)
	r.Trace = trace

	f := Scenarios[prop]

	mark()
	r.Begin()

	res := core.Guard(func() { f(r) })

	ordered(r)
	r.End()

	o := outcome{run: r}

	if r.Broken != "" {
		o.broken = r.Broken
	} else if res.Panic != nil && r.Viol == nil {
		o.broken = fmt.Sprintf("harness panic: %v", core.PanicText(res.Panic)) + "\n" + core.LastStack
	} else if (res.Crashed || res.Aborted) && r.Viol == nil {
		o.broken = "run ended without a verdict"
	}

	return o
}

var (
	marker  *os.File
	marks   int
	current int
)

// mark leaves the number of the run in a file, for the driver in case this
// process dies or hangs in it.
func mark() {
	if marker == nil {
		f, err := os.Create(os.Getenv("VSIM_OUT") + ".at")
		if err != nil {
			return
		}

		marker = f
	}

	marks++

	marker.WriteAt([]byte(fmt.Sprintf("%12d %12d\n", current, marks)), 0)
}

func env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}

	return def
}

// Main is the body of the harness's only test.
func Main(t *testing.T) {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(24 << 20)

	synctest.Test(t, func(t *testing.T) {
		rep := work()

		b, _ := json.Marshal(rep)

		if err := os.WriteFile(os.Getenv("VSIM_OUT"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}

		os.Exit(0)
	})
}

func work() *Report {
	prop := os.Getenv("VSIM_PROP")
	if Scenarios[prop] == nil {
		return &Report{Error: "no scenario for " + prop}
	}

	if f := os.Getenv("VSIM_REPLAY"); f != "" {
		return replay(prop, f)
	}

	base, _ := strconv.ParseUint(os.Getenv("VSIM_SEED"), 10, 64)
	from, step, to := env("VSIM_FROM", 0), env("VSIM_STEP", 1), env("VSIM_TO", 1)
	limit := float64(env("VSIM_SECONDS", 600))
	digest := os.Getenv("VSIM_DIGEST") != ""
	rep := &Report{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	start := now()
	schedules, faults, hashes := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}

	for i := from; i < to; i += step {
		if now()-start > limit {
			rep.Probes["stopped-by-wall-clock"]++

			break
		}

		current = i
		seed := core.Mix(base, core.HashString(prop), uint64(i))
		o := execute(prop, seed, core.NewTape(seed), len(rep.Samples) < 2 || os.Getenv("VSIM_EVENTS") != "")
		r := o.run

		if os.Getenv("VSIM_EVENTS") != "" { // for development
			fmt.Fprintf(os.Stderr, "EVENTS %d: %.3000s\n", i, strings.Join(r.Events, " | "))
		}

		if o.broken != "" {
			rep.Error = fmt.Sprintf("run %d seed %d: %s", i, seed, o.broken)

			break
		}

		rep.Runs++
		rep.Ticks += r.Ticks
		rep.Switches += r.Switches

		for _, c := range r.Faults {
			rep.Faults[c.Name] += c.N
		}

		for _, c := range r.Probes {
			rep.Probes[c.Name] += c.N
		}

		for _, c := range r.KnownHits {
			rep.Known[c.Name] += c.N
		}

		if r.NumFaults() > 0 {
			rep.FaultRuns++
			faults[r.FaultHash()] = true
		}

		if r.Choices > 0 {
			schedules[r.ScheduleHash()] = true
		}

		if r.NumFaults() > 0 || r.Choices > 0 || r.RandDraws > 0 {
			hashes[core.Mix(r.Hash(), r.ScheduleHash())] = true
		}

		if digest {
			rep.Digest = append(rep.Digest, fmt.Sprintf("%d %016x %016x %016x %d", i, r.Hash(), r.FaultHash(), r.ScheduleHash(), r.Ticks))
		}

		if len(rep.Samples) < 2 && (r.NumFaults() > 0 || i > from+20*step) {
			ev := r.Events
			if len(ev) > 14 {
				ev = append(append([]string{}, ev[:10]...), fmt.Sprintf("... %d more events", len(ev)-10))
			}

			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d seed %d: %s", i, seed, strings.Join(ev, " | ")))
		}

		if r.Viol != nil && os.Getenv("VSIM_SURVEY") != "" { // for development
			fmt.Fprintf(os.Stderr, "SURVEY %d %s: %.600s\n", i, r.Viol.Class, r.Viol.Msg)

			continue
		}

		if r.Viol != nil {
			full := named(r.Tape.Record())
			rep.Replay = minimise(prop, i, seed, r, float64(env("VSIM_MIN_SECONDS", 60)))
			rep.Replay.BaseSeed = base
			rep.Replay.Full = full

			for k := from; k < i; k += step {
				rep.Replay.Prev = append(rep.Replay.Prev, k)
			}

			break
		}
	}

	rep.Schedules = hexes(schedules)
	rep.FaultSeqs = hexes(faults)
	rep.Hashes = hexes(hashes)
	rep.WallS = now() - start

	return rep
}

func hexes(m map[uint64]bool) []string {
	s := make([]string, 0, len(m))
	for h := range m {
		s = append(s, strconv.FormatUint(h, 36))
	}

	sort.Strings(s)

	return s
}

func named(rec [][]uint64) map[string][]uint64 {
	m := make(map[string][]uint64)
	for i, s := range rec {
		m[core.StreamNames[i]] = s
	}

	return m
}

func replay(prop, name string) *Report {
	b, err := os.ReadFile(name)
	if err != nil {
		return &Report{Error: err.Error()}
	}

	var rp Replay

	if err := json.Unmarshal(b, &rp); err != nil {
		return &Report{Error: err.Error()}
	}

	rec := make([][]uint64, len(core.StreamNames))
	for i, n := range core.StreamNames {
		rec[i] = rp.Tape[n]
	}

	for _, i := range rp.Warmup {
		seed := core.Mix(rp.BaseSeed, core.HashString(prop), uint64(i))
		execute(prop, seed, core.NewTape(seed), false)
	}

	tape := core.NewReplay(rec)
	if rp.Tape == nil {
		rp.Seed = core.Mix(rp.BaseSeed, core.HashString(prop), uint64(rp.Index))
		tape = core.NewTape(rp.Seed)
	}

	o := execute(prop, rp.Seed, tape, true)
	rep := &Report{Runs: 1, Error: o.broken}
	out := rp

	if rp.Tape == nil {
		out.Tape = named(o.run.Tape.Record())
	}

	out.Trace = o.run.Events
	out.Class, out.Message = "", ""

	if v := o.run.Viol; v != nil {
		out.Class, out.Message = v.Class, v.Msg
	}

	rep.Replay = &out

	return rep
}

// minimise shrinks the choices of a failing run while the same class of
// violation persists.
func minimise(prop string, index int, seed uint64, r *core.Run, budget float64) *Replay {
	class := r.Viol.Class
	best := r.Tape.Record()
	tries := 0
	deadline := now() + budget
	orig := make(map[string]int)

	for i, s := range best {
		orig[core.StreamNames[i]] = len(s)
	}

	fails := func(rec [][]uint64) bool {
		tries++

		o := execute(prop, seed, core.NewReplay(rec), false)
		if o.run.Viol == nil || o.run.Viol.Class != class {
			return false
		}

		best = o.run.Tape.Record()

		for i := range best { // choices of 0 at the end are implied
			n := len(best[i])
			for n > 0 && best[i][n-1] == 0 {
				n--
			}

			best[i] = best[i][:n]
		}

		return true
	}

	result := func(o *core.Run, tape [][]uint64) *Replay {
		return &Replay{
			Property: prop,
			Class:    o.Viol.Class,
			Message:  o.Viol.Msg,
			Index:    index,
			Seed:     seed,
			Tape:     named(tape),
			Original: orig,
			Tries:    tries,
			Trace:    o.Events,
		}
	}

	if !fails(best) {
		// What came before in this process matters: the driver sorts it out.
		return result(r, best)
	}

	with := func(i int, s []uint64) [][]uint64 {
		c := make([][]uint64, len(best))
		copy(c, best)

		c[i] = s

		return c
	}

	order := []int{core.Fault, core.Sched, core.Rand, core.Gen}

	for progress := true; progress && now() < deadline; {
		progress = false

		for _, i := range order {
			if len(best[i]) > 0 && fails(with(i, nil)) {
				progress = true

				continue
			}

			for n := len(best[i]) / 2; n >= 1 && now() < deadline; n /= 2 {
				for at := len(best[i]) - n; at >= 0 && now() < deadline; at -= n {
					if at+n > len(best[i]) {
						continue
					}

					s := append(append([]uint64(nil), best[i][:at]...), best[i][at+n:]...)
					if fails(with(i, s)) {
						progress = true

						continue
					}

					zero := true

					for _, v := range best[i][at : at+n] {
						zero = zero && v == 0
					}

					if zero {
						continue
					}

					s = append([]uint64(nil), best[i]...)
					for j := at; j < at+n; j++ {
						s[j] = 0
					}

					if fails(with(i, s)) {
						progress = true
					}
				}
			}

			for at := 0; at < len(best[i]) && now() < deadline; at++ {
				for at < len(best[i]) && best[i][at] > 1 {
					s := append([]uint64(nil), best[i]...)
					s[at] /= 2

					if !fails(with(i, s)) {
						s = append([]uint64(nil), best[i]...)
						s[at]--

						if s[at] > 64 || !fails(with(i, s)) {
							break
						}
					}

					progress = true
				}
			}
		}
	}

	o := execute(prop, seed, core.NewReplay(best), true)
	if o.run.Viol == nil {
		return result(r, r.Tape.Record())
	}

	return result(o.run, best)
}
