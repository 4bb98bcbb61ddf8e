//go:build go1.25

package hora

import (
	"compress/flate"
	"io"
)

func newInflate() func(io.Reader) io.ReadCloser { return flate.NewReader }
