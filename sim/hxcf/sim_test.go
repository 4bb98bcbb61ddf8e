//go:build go1.25

// Package hxcf simulates the XCF half of the library.
package hxcf

import (
	"testing"

	"vimagination.zapto.org/limage/zzverif/hx"
)

func TestSim(t *testing.T) { hx.Main(t) }
