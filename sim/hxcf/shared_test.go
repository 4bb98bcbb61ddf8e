//go:build go1.25

package hxcf

import (
	"bufio"
	"fmt"
	"hash/crc32"
	"image"
	"io"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() {
	hx.Scenarios["C11"] = c11
	hx.Scenarios["C14"] = c14
	hx.Scenarios["C15"] = c15
}

func sum(b []byte) string { return fmt.Sprintf("%d bytes %08x", len(b), crc32.ChecksumIEEE(b)) }

// c11 decodes files from seekable streams, the way image.Decode does.
func c11(r *core.Run) {
	f := genFile(r, r.N(4) == 3)
	f.compact = true
	b := f.build(r, r.N(3) == 0)

	r.Event("%s; %d bytes", f.desc, len(b.data))

	cmp := &comparison{canvas: image.Rect(0, 0, f.w, f.h), want: storedWant}

	try := func(st io.Reader, config bool) error {
		var (
			src = st
			im  image.Image
			c   image.Config
			err error
		)

		switch r.N(4) {
		case 1:
			src = bufio.NewReader(st)
		case 2:
			src = bufio.NewReaderSize(st, 16)
		}

		if config {
			r.Call("image.DecodeConfig", func() { c, _, err = image.DecodeConfig(src) })

			if err == nil && !r.Done() {
				if err := configMatches(c, nil, f); err != nil {
					r.Violate("config", "through a stream: %v (%s)", err, f.desc)
				}
			}

			return err
		}

		r.Call("image.Decode", func() { im, _, err = image.Decode(src) })

		if err != nil || r.Done() {
			return err
		}

		li, ok := im.(limage.Image)
		if !ok {
			r.Violate("differs", "a stream decodes to a %T", im)

			return nil
		}

		if err := look(r, func() error { return cmp.picture(li, f.nodes) }); err != nil && !r.Done() {
			r.Violate("differs", "through a stream decoding gives another picture: %v (%s)", err, f.desc)
		}

		return nil
	}

	dry := hx.NewStream(r, b.data, 0, hx.StreamPlan{})

	if err := try(dry, false); err != nil && !r.Done() {
		r.Violate("not-readable", "a valid file does not decode from a stream: %v (%s)", err, f.desc)
	}

	if r.Done() {
		return
	}

	if r.N(4) == 3 { // positioned reads, and no seeks
		d := hx.NewReaderAt(r, b.data, hx.ReadPlan{EOF: r.FBool(3)})

		if err := try(&positioned{ReaderAt: d}, r.N(4) == 3); err != nil && !r.Done() {
			r.Violate("not-readable", "a valid file does not decode from a reader that has positioned reads too: %v (%s)", err, f.desc)
		}

		if r.Done() {
			return
		}
	}

	for i, n := 0, 1+r.N(3); i < n; i++ {
		config := r.F(4) == 3
		st := hx.NewStream(r, b.data, 0, hx.DrawStreamPlan(r, dry.Reads, dry.Seeks, r.F(3) > 0))
		err := try(st, config)

		if r.Done() {
			return
		}

		fired := len(st.Fired) > 0

		r.Event("config %v: %d reads, %d seeks, faults %v, err=%v", config, st.Reads, st.Seeks, st.Fired, err)

		if err != nil && !fired {
			r.Violate("not-readable", "healthy reads of a stream failed: %v (%s)", err, f.desc)

			return
		}

		if fired && err == nil {
			r.Probe("fault-survived")
		}

		// The stream is good again.
		if !fired || st.Plan.Forever {
			continue
		}

		st.Plan.ReadErr, st.Plan.SeekErr = 0, 0

		if _, err := st.Seek(0, io.SeekStart); err != nil {
			r.Broken = err.Error()

			return
		}

		if err := try(st, false); err != nil && !r.Done() {
			r.Violate("not-readable", "a stream that is good again does not decode: %v (%s)", err, f.desc)
		}

		if r.Done() {
			return
		}
	}
}

// positioned is a reader that has positioned reads as well.
type positioned struct {
	io.ReaderAt
	pos int64
}

func (p *positioned) Read(b []byte) (int, error) {
	n, err := p.ReadAt(b, p.pos)
	p.pos += int64(n)

	return n, err
}

func pixels(im image.Image) string {
	h := crc32.NewIEEE()
	b := im.Bounds()
	sx, sy := max(b.Dx()/40, 1), max(b.Dy()/40, 1)

	for y := b.Min.Y; y < b.Max.Y; y += sy {
		for x := b.Min.X; x < b.Max.X; x += sx {
			fmt.Fprintf(h, "%v ", im.At(x, y))
		}
	}

	return fmt.Sprintf("%v %08x", b, h.Sum32())
}

// encodeOp encodes. What is stored of groups is how they look, which may be left
// to chance.
func encodeOp(r *core.Run, nodes []*hx.Node, im image.Image) func() string {
	chance := false

	for _, n := range nodes {
		chance = chance || dissolves(n.Kids)
	}

	return func() string {
		w := hx.NewWriterAt(r, hx.WritePlan{})
		err := xcf.Encode(w, im)

		if chance {
			return fmt.Sprint(err)
		}

		return fmt.Sprintf("%s %v", sum(w.Data), err)
	}
}

func decodeOp(ra io.ReaderAt, compressed bool) func() string {
	return func() string {
		f := xcf.Decode
		if compressed {
			f = xcf.DecodeCompressed
		}

		im, err := f(ra)
		if err != nil {
			return err.Error()
		}

		return fingerprint(im, true)
	}
}

func configOp(ra io.ReaderAt) func() string {
	return func() string {
		c, err := xcf.DecodeConfig(ra)
		if err != nil {
			return err.Error()
		}

		return fmt.Sprintf("%dx%d %v", c.Width, c.Height, modelName(c.ColorModel))
	}
}

// dissolves says whether what a picture shows is left to chance.
func dissolves(nodes []*hx.Node) bool {
	for _, n := range nodes {
		if n.Mode == limage.CompositeDissolve || dissolves(n.Kids) {
			return true
		}
	}

	return false
}

// flat is an operation that reads the flattened picture.
func flatOp(nodes []*hx.Node, im image.Image) func() string {
	if dissolves(nodes) {
		return func() string { pixels(im); return "" }
	}

	return func() string { return pixels(im) }
}

func c14(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, text: true, mask: true})
	f := genFile(r, r.N(6) == 5)
	f.compact = true
	b := f.build(r, r.N(3) == 0)

	r.Event("picture %s; file %s, %d bytes", p.desc, f.desc, len(b.data))

	disk := hx.NewReaderAt(r, b.data, hx.ReadPlan{})

	eager, err := decode(r, disk, false)
	if r.Done() {
		return
	}

	deferred, err2 := decode(r, disk, true)
	if r.Done() {
		return
	}

	if err != nil || err2 != nil {
		r.Violate("not-readable", "a valid file does not decode: %v, deferred %v (%s)", err, err2, f.desc)

		return
	}

	untouched, _ := decode(r, disk, true)

	if r.Done() {
		return
	}

	ops := []hx.Op{
		{Name: "encode", Do: encodeOp(r, p.nodes, p.im)},
		{Name: "encode again", Do: encodeOp(r, p.nodes, p.im)},
		{Name: "decode", Do: decodeOp(disk, false)},
		{Name: "decode deferred", Do: decodeOp(disk, true)},
		{Name: "dimensions", Do: configOp(disk)},
		{Name: "pixels", Do: flatOp(p.nodes, p.im)},
		{Name: "pixels of the decoded picture", Do: func() string { return fingerprint(eager, true) }},
		{Name: "pixels of the deferred picture", Do: func() string { return fingerprint(deferred, true) }},
		{Name: "the deferred picture, flattened", Do: flatOp(f.nodes, deferred)},
		{Name: "encode the deferred picture", Do: encodeOp(r, f.nodes, deferred)},
		{Name: "encode the decoded picture", Do: encodeOp(r, f.nodes, eager)},
		{Name: "pixels of another deferred picture", Do: func() string { return fingerprint(untouched, true) }},
	}

	hx.Together(r, ops, func() string { return hx.Snapshot(p.im) + hx.Snapshot(eager) + sum(disk.Data) })
}

func c15(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, text: true, mask: true})
	f := genFile(r, r.N(6) == 5)
	f.compact = true
	b := f.build(r, r.N(3) == 0)

	r.Event("picture %s; file %s, %d bytes", p.desc, f.desc, len(b.data))

	disk := hx.NewReaderAt(r, b.data, hx.ReadPlan{})

	deferred, err := decode(r, disk, true)
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("not-readable", "a valid file does not decode: %v (%s)", err, f.desc)

		return
	}

	ops := disk.Ops

	targets := []hx.Op{
		{Name: "encode", Do: encodeOp(r, p.nodes, p.im)},
		{Name: "decode", Do: decodeOp(disk, false)},
		{Name: "decode deferred", Do: decodeOp(disk, true)},
		{Name: "dimensions", Do: configOp(disk)},
		{Name: "pixels", Do: flatOp(p.nodes, p.im)},
		{Name: "pixels of the deferred picture", Do: func() string { return fingerprint(deferred, true) }},
		{Name: "encode the deferred picture", Do: encodeOp(r, f.nodes, deferred)},
	}

	other := func() picture { return genPicture(r, genOpts{maxTop: 2, depth: 1, text: true, mask: true}) }

	disturb := []hx.Op{
		{Name: "encode another", Do: func() string { return encodeOp(r, nil, other().im)() }},
		{Name: "encode with a write fault", Do: func() string {
			o := p
			if r.F(2) == 0 {
				o = other()
			}

			dry := hx.NewWriterAt(r, hx.WritePlan{})
			xcf.Encode(dry, o.im)

			w := hx.NewWriterAt(r, hx.DrawWritePlan(r, dry.Ops, dry.Bytes, true))

			return fmt.Sprint(xcf.Encode(w, o.im))
		}},
		{Name: "encode an image that panics", Do: func() string {
			w, h := hx.GenSize(r, false)
			px := hx.GenPixels(r, w, h, hx.KNRGBA, nil)
			im := limage.Image{{Name: "stop", Image: hx.Stopping(px, 1+r.F(3*w*h)), LayerBounds: image.Rect(0, 0, w, h)}}

			if g, ok := p.im.(limage.Image); ok && r.F(2) == 0 {
				im = append(im, g...)
			}

			return fmt.Sprint(xcf.Encode(hx.NewWriterAt(r, hx.WritePlan{}), im))
		}},
		{Name: "decode with a read fault", Do: func() string {
			return decodeOp(hx.NewReaderAt(r, b.data, hx.DrawReadPlan(r, ops, int64(len(b.data)))), r.FBool(2))()
		}},
		{Name: "decode a damaged file", Do: func() string {
			return decodeOp(hx.NewReaderAt(r, damageXCF(r, b), hx.ReadPlan{}), r.FBool(2))()
		}},
		{Name: "decode another", Do: func() string {
			w := hx.NewWriterAt(r, hx.WritePlan{})
			xcf.Encode(w, other().im)

			return decodeOp(hx.NewReaderAt(r, w.Data, hx.ReadPlan{}), r.FBool(2))()
		}},
		{Name: "dimensions with a read fault", Do: func() string {
			return configOp(hx.NewReaderAt(r, b.data, hx.DrawReadPlan(r, 40, int64(len(b.data)))))()
		}},
		{Name: "dimensions of a damaged file", Do: func() string {
			return configOp(hx.NewReaderAt(r, damageXCF(r, b), hx.ReadPlan{}))()
		}},
	}

	hx.Again(r, targets, disturb)
}
