//go:build go1.25

package hxcf

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// An independent reader of the files the encoder writes. It is strict, and
// notes which bytes belong to the file.

type parsedLayer struct {
	name       string
	w, h       int
	typ        uint32
	group      bool
	path       []uint32
	masked     bool
	text       bool
	props      map[uint32][]byte
	hierarchy  int64
	maskAt     int64
	sizeOfFile int64
}

type parsed struct {
	version int
	w, h    int
	base    int
	palette int
	rle     bool
	layers  []parsedLayer
	used    []bool
}

type cutter struct {
	data []byte
	used []bool
	at   int64
	wide bool
	err  error
}

func (c *cutter) take(n int64, what string) []byte {
	if c.err != nil {
		return make([]byte, max(min(n, 16), 0))
	}

	if n < 0 || c.at < 0 || c.at+n > int64(len(c.data)) {
		c.err = fmt.Errorf("%s at %d of %d bytes: the file ends there", what, c.at, len(c.data))

		return make([]byte, max(min(n, 16), 0))
	}

	for i := c.at; i < c.at+n; i++ {
		c.used[i] = true
	}

	b := c.data[c.at : c.at+n]
	c.at += n

	return b
}

func (c *cutter) u32(what string) uint32 { return binary.BigEndian.Uint32(c.take(4, what)) }

func (c *cutter) ptr(what string) int64 {
	if c.wide {
		return int64(binary.BigEndian.Uint64(c.take(8, what)))
	}

	return int64(c.u32(what))
}

func (c *cutter) fail(format string, args ...interface{}) {
	if c.err == nil {
		c.err = fmt.Errorf(format, args...)
	}
}

func (c *cutter) str(what string) string {
	n := int64(c.u32(what))
	if n == 0 {
		return ""
	}

	b := c.take(n, what)
	if c.err != nil {
		return ""
	}

	if b[n-1] != 0 {
		c.fail("%s does not end with a zero", what)
	}

	return string(b[:n-1])
}

func (c *cutter) goTo(n int64) { c.at = n }

func (c *cutter) properties(what string) map[uint32][]byte {
	m := make(map[uint32][]byte)

	for c.err == nil {
		id := c.u32(what + " property")
		n := int64(c.u32(what + " property length"))

		if id == 0 {
			if n != 0 {
				c.fail("%s: last property has a length of %d", what, n)
			}

			break
		}

		m[id] = c.take(n, fmt.Sprintf("%s property %d", what, id))
	}

	return m
}

// hierarchy reads the pixels of a layer of the given size.
func (c *cutter) hierarchy(what string, w, h, bpp int, rle bool) {
	if gw, gh, gb := int(c.u32(what)), int(c.u32(what)), int(c.u32(what)); c.err == nil && (gw != w || gh != h || gb != bpp) {
		c.fail("%s: pixels are %dx%d of %d bytes, not %dx%d of %d", what, gw, gh, gb, w, h, bpp)

		return
	}

	l := c.ptr(what + " level")

	for c.err == nil {
		if c.ptr(what+" unused level") == 0 {
			break
		}
	}

	c.goTo(l)

	if gw, gh := int(c.u32(what)), int(c.u32(what)); c.err == nil && (gw != w || gh != h) {
		c.fail("%s: level is %dx%d, not %dx%d", what, gw, gh, w, h)

		return
	}

	n := ((w + 63) / 64) * ((h + 63) / 64)
	tiles := make([]int64, 0, 16)

	for i := 0; i < n && c.err == nil; i++ {
		tiles = append(tiles, c.ptr(what+" tile"))
	}

	if p := c.ptr(what + " end of tiles"); c.err == nil && p != 0 {
		c.fail("%s: more than %d tiles", what, n)
	}

	for i, t := range tiles {
		if c.err != nil {
			return
		}

		nx := (w + 63) / 64
		tw, th := min(64, w-i%nx*64), min(64, h-i/nx*64)

		if t == 0 {
			c.fail("%s: tile %d has no position", what, i)

			return
		}

		c.goTo(t)

		if !rle {
			c.take(int64(tw*th*bpp), what+" pixels")

			continue
		}

		for b := 0; b < bpp; b++ {
			left := tw * th

			for left > 0 && c.err == nil {
				m := int(c.take(1, what+" run")[0])

				switch {
				case m <= 127:
					k := m + 1
					if m == 127 {
						k = int(binary.BigEndian.Uint16(c.take(2, what+" run")))
					}

					c.take(1, what+" run")

					left -= k
				default:
					k := 256 - m
					if m == 128 {
						k = int(binary.BigEndian.Uint16(c.take(2, what+" stretch")))
					}

					c.take(int64(k), what+" stretch")

					left -= k
				}
			}

			if c.err == nil && left != 0 {
				c.fail("%s: tile %d channel %d has %d pixels too many", what, i, b, -left)
			}
		}
	}
}

// parseFile reads a file. What is missing from it, going by have, is an error.
func parseFile(data []byte, have []bool) (*parsed, error) {
	c := &cutter{data: data, used: make([]bool, len(data))}
	p := &parsed{used: c.used}
	magic := string(c.take(14, "header"))

	if c.err != nil {
		return nil, c.err
	}

	if magic[:9] != "gimp xcf " || magic[13] != 0 {
		return nil, errors.New("not a file of this format")
	}

	if magic[9:13] != "file" {
		if _, err := fmt.Sscanf(magic[9:13], "v%03d", &p.version); err != nil {
			return nil, err
		}
	}

	c.wide = p.version >= 11
	p.w, p.h, p.base = int(c.u32("width")), int(c.u32("height")), int(c.u32("base type"))

	if p.version >= 4 {
		c.u32("precision")
	}

	props := c.properties("image")

	if b := props[17]; len(b) == 1 {
		p.rle = b[0] == 1
	}

	if b := props[1]; len(b) >= 4 {
		p.palette = int(binary.BigEndian.Uint32(b))

		if len(b) != 4+3*p.palette {
			c.fail("palette of %d colours in %d bytes", p.palette, len(b))
		}
	}

	var ptrs []int64

	for c.err == nil {
		l := c.ptr("layer")
		if l == 0 {
			break
		}

		ptrs = append(ptrs, l)
	}

	for c.err == nil {
		if c.ptr("channel") == 0 {
			break
		}
	}

	for i, l := range ptrs {
		if c.err != nil {
			break
		}

		what := fmt.Sprintf("layer %d", i)

		c.goTo(l)

		pl := parsedLayer{w: int(c.u32(what)), h: int(c.u32(what)), typ: c.u32(what)}
		pl.name = c.str(what + " name")
		pl.props = c.properties(what)
		_, pl.group = pl.props[29]
		_, pl.text = pl.props[26]

		if b := pl.props[30]; b != nil {
			for ; len(b) >= 4; b = b[4:] {
				pl.path = append(pl.path, binary.BigEndian.Uint32(b))
			}
		}

		h := c.ptr(what + " pixels")
		m := c.ptr(what + " mask")
		pl.masked = m != 0

		if pl.typ>>1 != uint32(p.base) {
			c.fail("%s: type %d in a file of base type %d", what, pl.typ, p.base)
		}

		if h == 0 {
			c.fail("%s has no pixels", what)
		}

		c.goTo(h)
		c.hierarchy(what, pl.w, pl.h, []int{3, 4, 1, 2, 1, 2}[min(pl.typ, 5)], p.rle)

		if pl.masked {
			c.goTo(m)

			mw, mh := int(c.u32(what+" mask")), int(c.u32(what+" mask"))

			if c.err == nil && (mw != pl.w || mh != pl.h) {
				c.fail("%s: mask of %dx%d for %dx%d", what, mw, mh, pl.w, pl.h)
			}

			c.str(what + " mask name")
			c.properties(what + " mask")

			mp := c.ptr(what + " mask pixels")

			c.goTo(mp)
			c.hierarchy(what+" mask", mw, mh, 1, p.rle)
		}

		p.layers = append(p.layers, pl)
	}

	if c.err != nil {
		return nil, c.err
	}

	for i, u := range c.used {
		if u && have != nil && !have[i] {
			return nil, fmt.Errorf("byte %d of %d was never written", i, len(data))
		}
	}

	return p, nil
}
