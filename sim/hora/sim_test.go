//go:build go1.25

// Package hora simulates the OpenRaster half of the library and the parts
// that do not need XCF.
package hora

import (
	"testing"

	"vimagination.zapto.org/limage/zzverif/hx"
)

func TestSim(t *testing.T) { hx.Main(t) }
