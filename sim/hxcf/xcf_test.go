//go:build go1.25

package hxcf

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"slices"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() {
	hx.Scenarios["C06"] = c06
	hx.Scenarios["C07"] = c07
	hx.Scenarios["C08"] = c08
	hx.Scenarios["C09"] = c09
	hx.Scenarios["C10"] = c10
	hx.Scenarios["C12"] = c12
}

func encode(r *core.Run, im image.Image, plan hx.WritePlan) (*hx.WriterAt, error, core.Result) {
	return encodeOver(r, im, plan, nil)
}

// encodeOver encodes into a file that already holds something.
func encodeOver(r *core.Run, im image.Image, plan hx.WritePlan, old []byte) (*hx.WriterAt, error, core.Result) {
	w := hx.NewWriterAt(r, plan)
	w.Data = slices.Clone(old)
	w.Have = make([]bool, len(old))

	var err error

	res := r.Call("Encode", func() { err = xcf.Encode(w, im) })

	if err == nil && w.Late > 0 {
		r.Violate("write-after-return", "%d writes came after encoding had reported success", w.Late)
	}

	return w, err, res
}

func decode(r *core.Run, ra io.ReaderAt, compressed bool) (limage.Image, error) {
	var (
		im  limage.Image
		err error
	)

	var early string

	seen := func() {
		if err == nil && r.Pending() {
			early = fingerprint(im, true)
		}
	}

	if compressed {
		r.Call("DecodeCompressed", func() { im, err = xcf.DecodeCompressed(ra); seen() })
	} else {
		r.Call("Decode", func() { im, err = xcf.Decode(ra); seen() })
	}

	if early != "" && !r.Done() {
		hx.Settled(r, early, func() string { return fingerprint(im, true) })
	}

	return im, err
}

func decodeConfig(r *core.Run, ra io.ReaderAt) (image.Config, error) {
	var (
		c   image.Config
		err error
	)

	r.Call("DecodeConfig", func() { c, err = xcf.DecodeConfig(ra) })

	return c, err
}

// look runs code that reads the pixels of a picture.
func look(r *core.Run, f func() error) error {
	var err error

	r.Call("pixels", func() { err = f() })

	return err
}

// complete checks that the writer holds all of a file with the picture.
func complete(w *hx.WriterAt, p picture) error {
	f, err := parseFile(w.Data, w.Have)
	if err != nil {
		return err
	}

	fl := flatten(p.nodes, image.Point{}, nil)

	if f.w != p.w || f.h != p.h {
		return fmt.Errorf("the canvas is %dx%d, not %dx%d", f.w, f.h, p.w, p.h)
	}

	if f.base == baseIndexed && f.palette == 0 {
		return errors.New("there is no palette")
	}

	if len(f.layers) != len(fl) {
		return fmt.Errorf("there are %d layers, not %d", len(f.layers), len(fl))
	}

	for i, l := range f.layers {
		n := fl[i].n
		nw, nh := n.Size()

		if l.name != n.Name || l.group != n.Group || l.masked != (n.Mask != nil) || l.text != (n.Text != nil) || !n.Group && (l.w != nw || l.h != nh) {
			return fmt.Errorf("layer %d is %q, %dx%d, group %v, mask %v, text %v; not %s", i, l.name, l.w, l.h, l.group, l.masked, l.text, hx.Describe([]*hx.Node{n}))
		}
	}

	return nil
}

func c06(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, big: true, text: true, mask: true})

	r.Event("%s", p.desc)

	dry, err, _ := encode(r, p.im, hx.WritePlan{})

	if r.Done() {
		return
	} else if err != nil {
		r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v (%s)", err, p.desc)

		return
	}

	if err := complete(dry, p); err != nil {
		r.Violate("incomplete", "the encode succeeded but the file is not complete: %v (%s)", err, p.desc)

		return
	}

	left := dry.Data

	for i, n := 0, 3+r.F(8); i < n; i++ {
		w, err, res := encodeOver(r, p.im, hx.DrawWritePlan(r, dry.Ops, dry.Bytes, true), leftOver(r, left))

		if r.Done() {
			return
		}

		r.Event("encode: %d writes of %d bytes, crashed=%v, err=%v", w.Ops, w.Bytes, res.Crashed, err)

		switch {
		case res.Crashed:
			if w.Plan.Kind != hx.WriteCrash {
				r.Violate("stopped", "the encode ended without a crash")
			}
		case w.Err != nil && err == nil:
			r.Violate("write-error-lost", "the writer reported %v but the encode succeeded", w.Err)
		case w.Err != nil && !recoverable(err, w.Err):
			r.Violate("write-error-replaced", "the writer reported %v but the encode reported %v", w.Err, err)
		case w.Err == nil && err != nil:
			r.Violate("healthy-write-failed", "no write failed but the encode reported %v", err)
		case w.Err == nil:
			if err := complete(w, p); err != nil {
				r.Violate("incomplete", "the encode succeeded but the file is not complete: %v", err)
			}
		}

		left = w.Data

		if r.Done() {
			return
		}
	}
}

// leftOver is what a file may hold before it is written: an older file, a file
// that a failed or crashed encode left, or anything else.
func leftOver(r *core.Run, older []byte) []byte {
	switch r.F(4) {
	case 0:
		return nil
	case 1:
		return older[:r.F(len(older)+1)]
	case 2:
		r.FaultFired("old-contents", "")

		return append(slices.Clone(older), filler(r, 1+r.F(300))...)
	}

	r.FaultFired("old-contents", "")

	return filler(r, r.F(len(older)+300))
}

func filler(r *core.Run, n int) []byte {
	b := make([]byte, n)
	m := byte(r.F(256))

	for i := range b {
		b[i] = byte(i)*m + m
	}

	return b
}

// recoverable reports whether the writer's error can be found in err.
func recoverable(err, want error) bool {
	if errors.Is(err, want) {
		return true
	}

	var inj *hx.InjectedError

	return errors.As(err, &inj) && error(inj) == want
}

// adjusted is the model as the format can hold it: blend modes by colour type.
func adjusted(nodes []*hx.Node, base int, top bool) []*hx.Node {
	out := make([]*hx.Node, len(nodes))

	for i, n := range nodes {
		c := *n

		if base == baseIndexed {
			switch c.Mode {
			case limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind:
			default:
				c.Mode = anyMode
			}
		}

		c.Kids = adjusted(n.Kids, base, false)
		out[i] = &c
	}

	return out
}

// anyMode is the mode of layers whose mode does not survive.
const anyMode = limage.Composite(0xff)

func (f *xfile) reader(r *core.Run, b *built, plan hx.ReadPlan) *hx.ReaderAt {
	d := hx.NewReaderAt(r, b.data, plan)
	d.HoleAt, d.Hole = b.holeAt, b.hole

	return d
}

// saveAgain writes a picture over what is there until an encode succeeds, with
// faults in some of the attempts, and gives that file.
func saveAgain(r *core.Run, im image.Image, w *hx.WriterAt) *hx.WriterAt {
	if !r.FBool(2) {
		return w
	}

	ops, bytes := w.Ops, w.Bytes
	left := leftOver(r, w.Data)

	for i := r.F(3); ; i-- {
		var plan hx.WritePlan

		if i > 0 {
			plan = hx.DrawWritePlan(r, ops, bytes, true)
		}

		n, err, res := encodeOver(r, im, plan, left)
		if r.Done() {
			return nil
		}

		r.Event("save: %d writes of %d bytes over %d, crashed=%v, err=%v", n.Ops, n.Bytes, len(left), res.Crashed, err)

		switch {
		case !res.Crashed && err == nil:
			return n
		case i <= 0:
			r.Violate("healthy-write-failed", "encoding again to a healthy writer failed: %v", err)

			return nil
		}

		left = n.Data
	}
}

func c07(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 4, depth: 2, big: true, text: true, mask: true})

	r.Event("%s", p.desc)

	w, err, _ := encode(r, p.im, hx.WritePlan{})

	if r.Done() {
		return
	} else if err != nil {
		r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v (%s)", err, p.desc)

		return
	}

	if w = saveAgain(r, p.im, w); w == nil {
		return
	}

	cmp := &comparison{canvas: image.Rect(0, 0, p.w, p.h)}
	cmp.want = func(n *hx.Node) want { return savedWant(n, p.base, p.pal) }
	exp := adjusted(p.nodes, p.base, true)
	first := ""

	for gen := 0; gen < 3; gen++ {
		d := hx.NewReaderAt(r, w.Data, hx.ReadPlan{EOF: r.FBool(2)})

		c, err := decodeConfig(r, d)
		if r.Done() {
			return
		} else if err != nil || c.Width != p.w || c.Height != p.h {
			r.Violate("dimensions", "the dimensions read back as %dx%d (%v), not %dx%d (%s)", c.Width, c.Height, err, p.w, p.h, p.desc)

			return
		}

		var next limage.Image

		for _, compressed := range []bool{false, true} {
			im, err := decode(r, d, compressed)
			if r.Done() {
				return
			} else if err != nil {
				r.Violate("not-readable", "what was written does not decode (generation %d, deferred %v): %v (%s)", gen, compressed, err, p.desc)

				return
			}

			if gen == 0 {
				if err := look(r, func() error { return cmp.picture(im, exp) }); err != nil || r.Done() {
					r.Violate("read-back-differs", "reading back gives another picture (deferred %v): %v (%s)", compressed, err, p.desc)

					return
				}
			}

			var fp string

			look(r, func() error { fp = fingerprint(im, false); return nil })

			if r.Done() {
				return
			}

			if first == "" {
				first = fp
			}

			if fp != first {
				r.Violate("generation-differs", "generation %d (deferred %v) is not the picture first read back: %s, not %s (%s)", gen, compressed, fp, first, p.desc)

				return
			}

			if next == nil || r.N(2) == 1 {
				next = im
			}
		}

		if gen == 2 || len(next) == 0 {
			break
		}

		w, err, _ = encode(r, next, hx.WritePlan{})
		if r.Done() {
			return
		} else if err != nil {
			r.Violate("not-writable-again", "what was read back cannot be written again: %v (%s)", err, p.desc)

			return
		}
	}
}

// configMatches compares what DecodeConfig says with the file.
func configMatches(c image.Config, err error, f *xfile) error {
	if err != nil {
		return err
	}

	if c.Width != f.w || c.Height != f.h {
		return fmt.Errorf("%dx%d, not %dx%d", c.Width, c.Height, f.w, f.h)
	}

	switch f.base {
	case baseRGB:
		if c.ColorModel != color.NRGBAModel {
			return fmt.Errorf("colour model %v, not NRGBA", modelName(c.ColorModel))
		}
	case baseGray:
		if c.ColorModel != lcolor.GrayAlphaModel {
			return fmt.Errorf("colour model %v, not gray", modelName(c.ColorModel))
		}
	case baseIndexed:
		var got []color.Color

		switch p := c.ColorModel.(type) {
		case lcolor.AlphaPalette:
			got = p
		case color.Palette:
			got = p
		default:
			return fmt.Errorf("colour model %v, not a palette", modelName(c.ColorModel))
		}

		if len(got) != len(f.pal) {
			return fmt.Errorf("palette of %d colours, not %d", len(got), len(f.pal))
		}

		for i, e := range f.pal {
			ev, _ := straight(e)
			gv, _ := straight(got[i])

			if ev != gv {
				return fmt.Errorf("colour %d of the palette is %v, not %v", i, got[i], e)
			}
		}
	}

	return nil
}

func c08(r *core.Run) {
	f := genFile(r, true)
	b := f.build(r, r.N(4) == 0)

	r.Event("%s; %d bytes, hole of %d at %d", f.desc, len(b.data), b.hole, b.holeAt)

	cmp := &comparison{canvas: image.Rect(0, 0, f.w, f.h), want: storedWant}
	d := f.reader(r, b, hx.ReadPlan{EOF: r.FBool(2)})

	for i, n := 0, 2+r.F(3); i < n; i++ {
		if i == 0 || r.FBool(3) {
			c, err := decodeConfig(r, d)
			if r.Done() {
				return
			}

			if err := configMatches(c, err, f); err != nil {
				r.Violate("config", "without decoding: %v (%s)", err, f.desc)

				return
			}
		}

		compressed := i == 1 || i > 1 && r.FBool(2)

		im, err := decode(r, d, compressed)
		if r.Done() {
			return
		} else if err != nil {
			r.Violate("not-readable", "a valid file does not decode (deferred %v): %v (%s; hole %d at %d)", compressed, err, f.desc, b.hole, b.holeAt)

			return
		}

		err = look(r, func() error { return cmp.picture(im, f.nodes) })
		if r.Done() {
			return
		}

		if err != nil {
			r.Violate("differs", "decoding (deferred %v) gives another picture: %v (%s)", compressed, err, f.desc)

			return
		}
	}

	if r.N(4) == 3 { // several at once
		fns := make([]func(), 2+r.N(2))

		for i := range fns {
			compressed := r.N(2) == 1

			fns[i] = func() {
				im, err := decode(r, d, compressed)
				if r.Done() {
					return
				}

				if err == nil {
					err = look(r, func() error { return cmp.picture(im, f.nodes) })
				}

				if err != nil && !r.Done() {
					r.Violate("differs-together", "decoding while others do (deferred %v): %v (%s)", compressed, err, f.desc)
				}
			}
		}

		r.Concurrent(fns...)
	}
}

// logical converts a position in what is kept of a file into one in the file.
func (b *built) logical(at int64) int64 {
	if b.hole > 0 && at >= b.holeAt {
		return at + b.hole
	}

	return at
}

func c09(r *core.Run) {
	f := genFile(r, r.N(3) == 2)
	b := f.build(r, r.N(3) == 0)

	r.Event("%s; %d bytes", f.desc, len(b.data))

	type result struct {
		ops  int
		good string
	}

	var base [2]result

	for i, compressed := range []bool{false, true} {
		d := f.reader(r, b, hx.ReadPlan{})

		im, err := decode(r, d, compressed)
		if r.Done() {
			return
		} else if err != nil {
			r.Violate("intact-not-readable", "an intact file does not decode: %v (%s)", err, f.desc)

			return
		}

		look(r, func() error { base[i] = result{d.Ops, fingerprint(im, true)}; return nil })

		if r.Done() {
			return
		}
	}

	dc := f.reader(r, b, hx.ReadPlan{})

	good, err := decodeConfig(r, dc)
	if r.Done() {
		return
	} else if err := configMatches(good, err, f); err != nil {
		r.Violate("intact-not-readable", "an intact file: %v (%s)", err, f.desc)

		return
	}

	var open []*hx.ReaderAt

	for i, n := 0, 3+r.F(8); i < n; i++ {
		mode := r.F(5)
		ops := dc.Ops

		if mode > 0 {
			ops = base[mode&1].ops
		}

		plan := hx.DrawReadPlan(r, ops, int64(len(b.data)))

		if plan.Kind == hx.ReadCut {
			plan.Size = b.logical(plan.Size)
		} else if plan.Kind == hx.ReadSector {
			plan.Sector = b.logical(plan.Sector*hx.SectorSize) / hx.SectorSize
		}

		d := f.reader(r, b, plan)

		if mode == 0 {
			c, err := decodeConfig(r, d)
			if r.Done() {
				return
			}

			r.Event("dimensions: fired=%v err=%v", d.Fired, err)

			if err == nil {
				if err := configMatches(c, nil, f); err != nil {
					r.Violate("wrong-after-read-fault", "after a read fault the dimensions and colours are wrong: %v (%s)", err, f.desc)

					return
				}
			} else if !d.Fired {
				r.Violate("intact-not-readable", "healthy reads failed: %v (%s)", err, f.desc)

				return
			}
		} else {
			compressed := mode&1 == 1

			im, err := decode(r, d, compressed)
			if r.Done() {
				return
			}

			r.Event("decode deferred=%v: fired=%v err=%v", compressed, d.Fired, err)

			if err != nil {
				if !d.Fired {
					r.Violate("intact-not-readable", "healthy reads failed: %v (%s)", err, f.desc)

					return
				}
			} else {
				var fp string

				look(r, func() error { fp = fingerprint(im, true); return nil })

				if r.Done() {
					return
				}

				if fp != base[mode&1].good {
					r.Violate("wrong-after-read-fault", "after a read fault decoding (deferred %v) succeeded with another picture: %s, not %s (%s)", compressed, fp, base[mode&1].good, f.desc)

					return
				}

				if d.Fired {
					r.Probe("fault-survived")
				}
			}
		}

		open = append(open, d)
	}

	for _, d := range open {
		if d.Late > 0 {
			r.Violate("read-after-return", "%d reads were issued after decoding had returned", d.Late)

			return
		}
	}
}

var words = []uint32{0, 1, 2, 3, 4, 5, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4096, 0x7fff, 0xffff, 0x10000, 16 << 20, 16<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 0xfffffff0, 0xfffffffe, 0xffffffff}

// damageXCF changes stored bytes: blindly, or a field.
func damageXCF(r *core.Run, b *built) []byte {
	data := append([]byte(nil), b.data...)

	for i, n := 0, 1+r.F(3)/2+r.F(5)/4; i < n; i++ {
		if len(data) == 0 {
			break
		}

		at := r.F(len(data))

		word := func(s span) uint32 {
			switch r.F(6) {
			case 0, 1, 2:
				return words[r.F(len(words))]
			case 3:
				return uint32(r.F64(1 << 32))
			case 4:
				return uint32(r.F(len(data) + 5))
			}

			d := uint32(r.F(7) - 3)
			if s.n >= 4 {
				return binary.BigEndian.Uint32(data[s.off+s.n-4:]) + d
			}

			return uint32(data[s.off]) + d
		}

		switch k := r.F(12); k {
		case 0:
			bit := r.F(8)
			data[at] ^= 1 << bit

			r.FaultFired("bit-flip", "bit %d of byte %d of %d", bit, at, len(data))
		case 1:
			v := byte(r.F(256))
			data[at] = v

			r.FaultFired("byte-changed", "byte %d of %d to %02x", at, len(data), v)
		case 2: // lost
			s := at / hx.SectorSize * hx.SectorSize
			e := min(s+hx.SectorSize*(1+r.F(3)), len(data))

			for j := s; j < e; j++ {
				data[j] = 0
			}

			r.FaultFired("sector-lost", "bytes %d to %d of %d", s, e, len(data))
		case 3: // what belongs elsewhere
			s := at / hx.SectorSize * hx.SectorSize
			e := min(s+hx.SectorSize, len(data))
			o := r.F(len(data))

			copy(data[s:e], b.data[o:])

			r.FaultFired("sector-stale", "bytes %d to %d of %d with those at %d", s, e, len(data), o)
		case 4:
			data = data[:at]

			r.FaultFired("file-cut", "at %d of %d", at, len(b.data))
		default: // a field
			s := b.spans[r.F(len(b.spans))]

			if k >= 9 { // pixel fields are many, others few
				for tries := 0; tries < 12 && (s.label == "rle" || s.label == "rledata" || s.label == "prop" || s.label == "plen"); tries++ {
					s = b.spans[r.F(len(b.spans))]
				}
			}

			if s.off+s.n > len(data) || s.n == 0 {
				continue
			}

			set := func(s span, v uint32) {
				switch {
				case s.n >= 8 && s.label == "ptr":
					binary.BigEndian.PutUint64(data[s.off:], uint64(int64(int32(v))))

					if v&1 == 0 {
						binary.BigEndian.PutUint64(data[s.off:], uint64(v))
					}
				case s.n >= 4:
					binary.BigEndian.PutUint32(data[s.off+s.n/4*4-4:], v)
				case s.n >= 2:
					binary.BigEndian.PutUint16(data[s.off:], uint16(v))
				default:
					data[s.off] = byte(v)
				}
			}

			switch {
			case s.label == "ptr" && r.FBool(2): // to another part
				v := b.blocks[r.F(len(b.blocks))]
				set(s, uint32(v)&^1|uint32(v)&1)

				r.FaultFired("pointer-changed", "%s at %d to %d", s.label, s.off, v)
			case (s.label == "width" || s.label == "height") && r.FBool(2): // everywhere alike
				old, v := binary.BigEndian.Uint32(data[s.off:]), word(s)

				for _, t := range b.spans {
					if t.label == s.label && t.off+4 <= len(data) && binary.BigEndian.Uint32(data[t.off:]) == old {
						set(t, v)
					}
				}

				r.FaultFired("size-changed", "%s at %d and alike from %d to %d", s.label, s.off, old, v)
			case s.n > 8: // text and such
				o := s.off + r.F(s.n)
				odd := "\"\\()<>#&;0 9.x\x00\n"
				v := odd[r.F(len(odd))]
				data[o] = v

				r.FaultFired("byte-changed", "byte %d of %d (%s) to %02x", o, len(data), s.label, v)
			default:
				v := word(s)
				set(s, v)

				r.FaultFired("field-changed", "%s at %d to %d", s.label, s.off, v)
			}
		}
	}

	return data
}

// readAll reads every pixel of a picture in every way there is.
func readAll(im limage.Image, limit int) {
	visit := func(im image.Image) {
		b := im.Bounds()
		stepX, stepY := 1, 1

		if n := b.Dx() * b.Dy(); n > limit {
			stepX, stepY = max(b.Dx()/200, 1), max(b.Dy()/200, 1)
		}

		for y := b.Min.Y; y < b.Max.Y; y += stepY {
			for x := b.Min.X; x < b.Max.X; x += stepX {
				if c := im.At(x, y); c != nil {
					c.RGBA()
				}
			}
		}
	}

	var walk func(im limage.Image)

	walk = func(im limage.Image) {
		for _, l := range im {
			px, mask, _, _ := leaf(l.Image)

			if mask != nil {
				visit(mask)
			}

			if g, ok := px.(limage.Image); ok {
				walk(g)
			} else if px != nil {
				visit(px)
			}
		}
	}

	walk(im)

	// And the way it looks as a whole.
	b := im.Bounds()
	stepX, stepY := max(b.Dx()/40, 1), max(b.Dy()/40, 1)

	for y, n := b.Min.Y, 0; y < b.Max.Y && n < 50; y, n = y+stepY, n+1 {
		for x, m := b.Min.X, 0; x < b.Max.X && m < 50; x, m = x+stepX, m+1 {
			if c := im.At(x, y); c != nil {
				c.RGBA()
			}
		}
	}

	if m := im.ColorModel(); m != nil {
		m.Convert(color.NRGBA{1, 2, 3, 4})
	}
}

func c10(r *core.Run) {
	f := genFile(r, r.N(6) == 5)
	f.compact = true // the size of the file is what bounds the time and memory
	b := f.build(r, r.N(5) == 4)

	r.Event("%s; %d bytes", f.desc, len(b.data))

	for i, n := 0, 4+r.F(14); i < n; i++ {
		data := damageXCF(r, b)
		size := int64(len(data))

		// A pointer of 4 bytes can stand for a tile of 4096 pixels.
		r.MaxTicks = 20_000_000 + 60_000*size
		r.MaxAlloc = max(1<<22, 1200*size)
		r.Alloc, r.MaxTotal = 0, 1<<24+5000*size

		d := hx.NewReaderAt(r, data, hx.ReadPlan{})

		c, cerr := decodeConfig(r, d)
		if r.Done() {
			return
		}

		if cerr == nil && c.ColorModel != nil {
			look(r, func() error { c.ColorModel.Convert(color.NRGBA{9, 8, 7, 6}); return nil })
		}

		for _, compressed := range []bool{false, true} {
			r.Alloc = 0

			im, err := decode(r, d, compressed)
			if r.Done() {
				return
			}

			r.Event("decode deferred=%v of %d bytes: err=%v", compressed, size, err)

			if err != nil {
				continue
			}

			r.Probe("damaged-file-decodes")

			look(r, func() error { readAll(im, 1<<20); return nil })

			if r.Done() {
				return
			}
		}
	}
}

// walkOrder is an order of pixels.
func walkOrder(r *core.Run) func(w, h int) []image.Point {
	kind := r.N(5)
	rng := hx.PRNG(r.Tape.Draw(core.Gen, 1<<32))

	return func(w, h int) []image.Point {
		pts := make([]image.Point, 0, w*h)

		n := w * h
		if kind == 3 || kind == 4 { // every pixel may be in another tile
			n = min(n, 800)
		}

		for i := 0; i < n; i++ {
			switch kind {
			case 1: // backwards
				j := w*h - 1 - i
				pts = append(pts, image.Pt(j%w, j/w))
			case 2: // by columns
				pts = append(pts, image.Pt(i/h, i%h))
			case 3: // at random, with repetition
				pts = append(pts, image.Pt(rng.Next(w), rng.Next(h)))
			case 4: // from both ends
				j := i / 2
				if i&1 == 1 {
					j = w*h - 1 - i/2
				}

				pts = append(pts, image.Pt(j%w, j/w))
			default:
				pts = append(pts, image.Pt(i%w, i/w))
			}
		}

		return pts
	}
}

func c12(r *core.Run) {
	f := genFile(r, true)
	b := f.build(r, r.N(3) == 0)

	r.Event("%s; %d bytes", f.desc, len(b.data))

	d := f.reader(r, b, hx.ReadPlan{})

	eager, err := decode(r, d, false)
	if r.Done() {
		return
	}

	deferred, err2 := decode(r, d, true)
	if r.Done() {
		return
	}

	if err != nil || err2 != nil {
		r.Violate("not-readable", "a valid file does not decode: %v, deferred %v (%s)", err, err2, f.desc)

		return
	}

	d.Data = bytes.Repeat([]byte{0x55}, len(d.Data)) // is not needed any more

	type pair struct {
		e, d image.Image
		path string
	}

	var pairs []pair

	var walk func(e, d limage.Image, path string) error

	walk = func(e, d limage.Image, path string) error {
		if len(e) != len(d) {
			return fmt.Errorf("%s has %d layers, not %d", path, len(d), len(e))
		}

		for i := range e {
			p := fmt.Sprintf("%s/%d", path, i)
			a, b := e[i], d[i]

			if a.Name != b.Name || a.LayerBounds != b.LayerBounds || a.Mode != b.Mode || a.Invisible != b.Invisible || a.Transparency != b.Transparency {
				return fmt.Errorf("%s: layer differs", p)
			}

			epx, emask, etext, err1 := leaf(a.Image)
			dpx, dmask, dtext, err2 := leaf(b.Image)

			if err1 != nil || err2 != nil || (emask == nil) != (dmask == nil) || (etext == nil) != (dtext == nil) {
				return fmt.Errorf("%s: content differs: %T and %T", p, a.Image, b.Image)
			}

			if emask != nil {
				pairs = append(pairs, pair{emask, dmask, p + " mask"})
			}

			if etext != nil {
				if err := sameText(dtext, etext); err != nil {
					return fmt.Errorf("%s: %w", p, err)
				}
			}

			eg, ok1 := epx.(limage.Image)
			dg, ok2 := dpx.(limage.Image)

			if ok1 != ok2 {
				return fmt.Errorf("%s: content differs: %T and %T", p, a.Image, b.Image)
			}

			if ok1 {
				if err := walk(eg, dg, p); err != nil {
					return err
				}

				continue
			}

			pairs = append(pairs, pair{epx, dpx, p})
		}

		return nil
	}

	if err := walk(eager, deferred, ""); err != nil {
		r.Violate("structure", "deferred decoding gives other layers: %v (%s)", err, f.desc)

		return
	}

	check := func(p pair, pts []image.Point) error {
		if p.e.Bounds() != p.d.Bounds() {
			return fmt.Errorf("%s: bounds %v, not %v", p.path, p.d.Bounds(), p.e.Bounds())
		}

		if a, b := modelName(p.e.ColorModel()), modelName(p.d.ColorModel()); a != b {
			return fmt.Errorf("%s: colour model %s, not %s", p.path, b, a)
		}

		o := p.e.Bounds().Min

		for _, q := range pts {
			a, b := p.e.At(q.X+o.X, q.Y+o.Y), p.d.At(q.X+o.X, q.Y+o.Y)

			if a == nil || b == nil {
				if a != b {
					return fmt.Errorf("%s: pixel %v is %v, not %v", p.path, q, b, a)
				}

				continue
			}

			if !q.Add(o).In(p.e.Bounds()) {
				continue // has no colour to agree on
			}

			er, eg, eb, ea := a.RGBA()
			dr, dg, db, da := b.RGBA()

			if er != dr || eg != dg || eb != db || ea != da {
				return fmt.Errorf("%s: pixel %v is %v, not %v", p.path, q, b, a)
			}
		}

		return nil
	}

	// Reading in an order that keeps changing tiles decodes a tile for every
	// pixel: not more of them than an operation has time for.
	points := func(p pair, most int) []image.Point {
		b := p.e.Bounds()
		order := walkOrder(r)(b.Dx(), b.Dy())

		if n := len(order); n > most {
			at := r.N(n - most)
			order = order[at : at+most]
		}

		if n := len(order); n > 300 && r.N(2) == 1 {
			at := r.N(n - 200)
			order = order[at : at+200]
		}

		switch r.N(4) { // and around the edges
		case 3:
			order = append(order, image.Pt(-1, 0), image.Pt(0, -1), image.Pt(b.Dx(), 0), image.Pt(0, b.Dy()), image.Pt(b.Dx(), b.Dy()))
		}

		return order
	}

	if len(pairs) == 0 {
		return
	}

	// One after the other, jumping between layers.
	for i, n := 0, 1+r.N(4); i < n; i++ {
		p := pairs[r.N(len(pairs))]
		pts := points(p, 5000)

		err := look(r, func() error { return check(p, pts) })
		if r.Done() {
			return
		}

		if err != nil {
			r.Violate("pixels", "deferred pixels differ: %v (%s)", err, f.desc)

			return
		}
	}

	// Several readers, mostly of one layer.
	p := pairs[r.N(len(pairs))]
	fns := make([]func(), 2+r.N(3))

	for i := range fns {
		q := p
		if r.N(4) == 3 {
			q = pairs[r.N(len(pairs))]
		}

		pts := points(q, 1500)
		whole := r.N(5) == 4

		fns[i] = func() {
			err := look(r, func() error {
				if whole { // the flattened picture
					bb := image.Rect(0, 0, min(f.w, 20), min(f.h, 20))

					for y := bb.Min.Y; y < bb.Max.Y; y++ {
						for x := bb.Min.X; x < bb.Max.X; x++ {
							deferred.At(x, y)
						}
					}
				}

				return check(q, pts)
			})

			if err != nil && !r.Done() {
				r.Violate("pixels-together", "deferred pixels differ when several threads read them: %v (%s)", err, f.desc)
			}
		}
	}

	r.Concurrent(fns...)
}
