//go:build go1.25

package hx

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"vimagination.zapto.org/limage/zzverif/core"
)

const module = "vimagination.zapto.org/limage"

var races struct {
	log  *os.File
	seen int
}

// ordered checks that the race detector found every two accesses of the code
// under test to the same memory, one of them a write, ordered by the code's own
// synchronisation. The reports come in a file as the code is being executed.
func ordered(r *core.Run) {
	if !core.Race || core.RaceErrors() == races.seen {
		return
	}

	races.seen = core.RaceErrors()

	if races.log == nil {
		f, err := os.Open(fmt.Sprintf("%s.race.%d", os.Getenv("VSIM_OUT"), os.Getpid()))
		if err != nil {
			r.Broken = err.Error()

			return
		}

		races.log = f
	}

	b, err := io.ReadAll(races.log)
	if err != nil {
		r.Broken = err.Error()

		return
	}

	for _, report := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
		if s := accesses(report); len(s) == 2 {
			r.Violate("data-race", "without any order between them: %s; %s", s[1], s[0])
		} else if os.Getenv("VSIM_SURVEY") != "" {
			fmt.Fprintln(os.Stderr, "IGNORED", s, report)
		}
	}
}

// accesses lists the two accesses of a report that code under test made.
func accesses(report string) []string {
	var out []string

	for _, part := range strings.Split(report, "\n\n") {
		lines := strings.Split(strings.TrimLeft(part, "\n"), "\n")
		what := strings.ToLower(strings.TrimPrefix(lines[0], "Previous "))

		if !strings.Contains(what, " at 0x") || !(strings.HasPrefix(what, "read") || strings.HasPrefix(what, "write") || strings.HasPrefix(what, "atomic")) {
			continue
		}

		what = what[:strings.Index(what, " at 0x")]

		for i := 1; i+1 < len(lines); i += 2 {
			fn := strings.TrimSpace(lines[i])
			if !strings.HasPrefix(fn, module) {
				continue
			}

			if strings.HasPrefix(fn, module+"/zzverif") {
				break
			}

			at := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(at, " +0x"); k > 0 {
				at = at[:k]
			}

			out = append(out, fmt.Sprintf("%s in %s (%s)", what, strings.TrimSuffix(strings.TrimPrefix(fn, module), "()"), filepath.Base(at)))

			break
		}
	}

	return out
}
