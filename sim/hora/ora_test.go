//go:build go1.25

package hora

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() {
	hx.Scenarios["C01"] = c01
	hx.Scenarios["C02"] = c02
	hx.Scenarios["C03"] = c03
	hx.Scenarios["C04"] = c04
	hx.Scenarios["C05"] = c05
	hx.Scenarios["C16"] = c16
}

// encode runs the encoder on a simulated file.
func encode(r *core.Run, im image.Image, plan hx.WritePlan) (*hx.Writer, error, core.Result) {
	w := hx.NewWriter(r, plan)

	var err error

	res := r.Call("encode", func() { err = ora.Encode(w, im) })

	if err == nil && w.Late > 0 {
		r.Violate("write-after-return", "%d writes came after encoding had reported success", w.Late)
	}

	return w, err, res
}

func c01(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, roots: true, big: r.N(10) == 9})
	r.Event("picture %s", p.desc)

	if r.N(12) == 11 { // with something that can not be stored
		unstorable(r, p)

		return
	}

	// Without a fault, to learn what is written.
	dry, err, _ := encode(r, p.im, hx.WritePlan{})
	if r.Done() {
		return
	}

	if err != nil {
		r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v", err)

		return
	}

	a, err := parseArchive(dry.Data)
	if err == nil {
		err = a.check(p, false)
	}

	if err != nil {
		r.Violate("incomplete-archive", "encoding reported success but the archive is not right: %v", err)

		return
	}

	for i, n := 0, 1+r.F(4); i < n; i++ {
		plan := hx.DrawWritePlan(r, dry.Ops, dry.Bytes, true)

		w, err, res := encode(r, p.im, plan)

		switch {
		case r.Done():
			return
		case res.Crashed:
			r.Event("crashed after %d bytes", len(w.Data))

			if !bytes.HasPrefix(dry.Data, w.Data) {
				r.Violate("not-a-prefix", "what was written before the crash is not what is written otherwise")
			}
		case err == nil && w.Err != nil:
			r.Violate("write-fault-hidden", "the writer failed (%v) but encoding reported success with %d of %d bytes accepted", w.Err, len(w.Data), len(dry.Data))
		case err == nil && !bytes.Equal(w.Data, dry.Data):
			r.Violate("incomplete-archive", "encoding reported success with %d bytes accepted instead of %d", len(w.Data), len(dry.Data))
		case err != nil && w.Err == nil:
			r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v", err)
		case err != nil && !errors.Is(err, w.Err):
			r.Violate("write-error-replaced", "the writer failed with %q but encoding reports %q", w.Err, err)
		}

		r.Event("outcome fault=%v err=%v bytes=%d", w.Err, err, len(w.Data))

		if r.Done() {
			return
		}
	}
}

// unstorable encodes a picture in which there is a layer without a size, which
// no image in an archive can have: that has to be reported.
func unstorable(r *core.Run, p picture) {
	empty := limage.Layer{Name: "empty", Image: image.NewNRGBA(image.Rect(0, 0, r.N(2)*5, 0))}
	stack := append(limage.Image{}, hx.Layers(p.nodes)...)
	at := r.N(len(stack) + 1)
	stack = append(stack[:at:at], append(limage.Image{empty}, stack[at:]...)...)

	if r.N(3) == 2 {
		stack = limage.Image{{Image: stack, LayerBounds: stack.Bounds()}}
	}

	w, err, _ := encode(r, stack, hx.WritePlan{})
	if r.Done() || err != nil {
		return
	}

	n := 0

	a, err := parseArchive(w.Data)
	if err == nil {
		n, err = a.storedLayers()
	}

	if want := hx.Leaves(p.nodes) + 1; err == nil && n != want {
		err = fmt.Errorf("it has %d layers, not %d", n, want)
	}

	if err != nil {
		r.Violate("incomplete-archive", "encoding reported success with layer %d without a size, but the archive is not right: %v", at, err)
	}
}

// decode reads an archive from a simulated file.
func decode(r *core.Run, d io.ReaderAt, size int64) (limage.Image, error) {
	var (
		im  limage.Image
		err error
	)

	zr, err := zip.NewReader(d, size)
	if err != nil {
		return nil, err
	}

	var early string

	r.Call("decode", func() {
		if im, err = ora.Decode(zr); err == nil && r.Pending() {
			early = fingerprint(im)
		}
	})

	if early != "" && !r.Done() {
		hx.Settled(r, early, func() string { return fingerprint(im) })
	}

	return im, err
}

func decodeConfig(r *core.Run, d io.ReaderAt, size int64) (image.Config, error) {
	var (
		c   image.Config
		err error
	)

	zr, err := zip.NewReader(d, size)
	if err != nil {
		return c, err
	}

	r.Call("decode dimensions", func() { c, err = ora.DecodeConfig(zr) })

	return c, err
}

func c02(r *core.Run) {
	if r.N(5) == 4 {
		c02foreign(r)

		return
	}

	p := genPicture(r, genOpts{maxTop: 4, depth: 3, roots: true, big: r.N(3) == 2})
	r.Event("picture %s", p.desc)

	// The first save may meet a fault; it is then repeated, as a caller would.
	dry, err, _ := encode(r, p.im, hx.WritePlan{})
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v", err)

		return
	}

	data := dry.Data

	if plan := hx.DrawWritePlan(r, dry.Ops, dry.Bytes, false); plan.Kind != hx.WriteOK {
		w, err, _ := encode(r, p.im, plan)
		if r.Done() {
			return
		}

		if err == nil {
			data = w.Data // acknowledged: has to read back
		}
	}

	im := readBack(r, data, p, "saved")
	if r.Done() {
		return
	}

	checkPreviews(r, data, p)

	if r.Done() {
		return
	}

	saveAgain(r, p, im, r.N(3))
}

// c02foreign loads a picture of another program and saves it.
func c02foreign(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 4, depth: 3})

	if r.N(2) == 1 {
		p = cut(r, p)
	}

	data := hx.WriteORA(r, p.nodes, p.w, p.h)

	r.Event("foreign file %d bytes: %s", len(data), p.desc)

	im := readBack(r, data, p, "foreign")
	if r.Done() || hollow(im) {
		return
	}

	b := im.Bounds()
	if b.Empty() {
		return
	}

	// The canvas is then what the layers span.
	p.nodes = shift(p.nodes, -b.Min.X, -b.Min.Y)
	p.w, p.h = b.Dx(), b.Dy()

	saveAgain(r, p, im, 1+r.N(2))
}

// c16 reads files of other programs, in any legal way, several times and from
// several threads.
func c16(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 5, depth: 3})

	if r.N(3) == 2 { // the image of a layer once more
		p.nodes = again(r, p.nodes)
	}

	switch r.N(4) {
	case 1:
		p = cut(r, p)
	case 2:
		p.w += r.N(30)
		p.h += r.N(30)
	}

	data := hx.WriteORA(r, p.nodes, p.w, p.h)

	r.Event("foreign file %d bytes, %dx%d: %s", len(data), p.w, p.h, p.desc)

	d := hx.NewReaderAt(r, data, hx.ReadPlan{EOF: r.FBool(3)})

	zr, err := zip.NewReader(d, int64(len(data)))
	if err != nil {
		r.Broken = err.Error()

		return
	}

	one := func() {
		z := zr

		if r.N(3) == 2 {
			z, _ = zip.NewReader(d, int64(len(data)))
		}

		if r.N(4) == 3 {
			var (
				c   image.Config
				err error
			)

			if r.Call("DecodeConfig", func() { c, err = ora.DecodeConfig(z) }); r.Done() {
				return
			}

			if err != nil || c.Width != p.w || c.Height != p.h {
				r.Violate("dimensions-differ", "the file has dimensions %dx%d (%v), not %dx%d", c.Width, c.Height, err, p.w, p.h)
			}

			return
		}

		var (
			im  limage.Image
			err error
		)

		if r.Call("Decode", func() { im, err = ora.Decode(z) }); r.Done() {
			return
		}

		if err != nil {
			r.Violate("valid-rejected", "a valid file does not decode: %v", err)
		} else if err := sameLayers(im, p.nodes, p.w, p.h, ""); err != nil {
			r.Violate("decodes-differently", "the picture is not the one in the file: %v", err)
		}
	}

	if r.N(3) > 0 {
		for i, n := 0, 1+r.N(3); i < n && !r.Done(); i++ {
			one()
		}

		return
	}

	fns := make([]func(), 2+r.N(2))
	for i := range fns {
		fns[i] = one
	}

	r.Concurrent(fns...)
}

// again adds layers that have the images of others.
func again(r *core.Run, nodes []*hx.Node) []*hx.Node {
	var leaves []*hx.Node

	var walk func(nodes []*hx.Node)

	walk = func(nodes []*hx.Node) {
		for _, n := range nodes {
			if n.Group {
				walk(n.Kids)
			} else {
				leaves = append(leaves, n)
			}
		}
	}

	walk(nodes)

	for i := 0; i < 1+r.N(2) && len(leaves) > 0; i++ {
		c := *leaves[r.N(len(leaves))]
		c.Name, c.X, c.Y, c.T = hx.GenName(r), r.N(20)-5, r.N(20)-5, uint8(r.N(256))
		nodes = append(nodes, &c)
	}

	return nodes
}

// cut makes the canvas smaller than what the layers span.
func cut(r *core.Run, p picture) picture {
	x, y := r.N((p.w+3)/4), r.N((p.h+3)/4)
	p.nodes = shift(p.nodes, -x, -y)
	p.w -= x + r.N((p.w-x+1)/2)
	p.h -= y + r.N((p.h-y+1)/2)
	p.desc += fmt.Sprintf(", cut at %d,%d to %dx%d", x, y, p.w, p.h)

	return p
}

// saveAgain saves and loads a loaded picture, in the next sessions.
func saveAgain(r *core.Run, p picture, im limage.Image, times int) {
	for gen := 0; gen < times && !hollow(im); gen++ {
		w, err, _ := encode(r, im, hx.WritePlan{})
		if r.Done() {
			return
		} else if err != nil {
			r.Violate("resave-failed", "saving the loaded picture failed: %v", err)

			return
		}

		// The picture's own canvas is the one its layers span.
		q := p
		im = readBack(r, w.Data, q, fmt.Sprintf("re-saved %d", gen+1))

		if r.Done() {
			return
		}
	}
}

func readBack(r *core.Run, data []byte, p picture, what string) limage.Image {
	d := hx.NewReaderAt(r, data, hx.ReadPlan{EOF: r.FBool(3)})

	im, err := decode(r, d, int64(len(data)))
	if r.Done() {
		return nil
	}

	if err != nil {
		r.Violate("acknowledged-not-readable", "the %s picture does not decode: %v", what, err)

		return nil
	}

	if err := sameLayers(im, p.nodes, p.w, p.h, ""); err != nil {
		r.Violate("acknowledged-differs", "the %s picture reads back differently: %v", what, err)

		return nil
	}

	c, err := decodeConfig(r, d, int64(len(data)))
	if r.Done() {
		return nil
	}

	if err != nil || c.Width != p.w || c.Height != p.h {
		r.Violate("dimensions-differ", "the %s picture has dimensions %dx%d (%v), not %dx%d", what, c.Width, c.Height, err, p.w, p.h)

		return nil
	}

	r.Event("%s %d bytes, reads back", what, len(data))

	return im
}

// checkPreviews compares the merged image and the thumbnail with the picture.
func checkPreviews(r *core.Run, data []byte, p picture) {
	a, err := parseArchive(data)
	if err != nil {
		r.Violate("incomplete-archive", "%v", err)

		return
	}

	if err := a.check(p, true); err != nil {
		r.Violate("stored-differs", "the archive does not say what the picture is: %v", err)

		return
	}

	merged, err := png.Decode(bytes.NewReader(a.files["mergedimage.png"]))
	if err != nil {
		r.Violate("merged-image", "%v", err)

		return
	}

	var want image.Image

	r.Call("flatten", func() {
		if p.plain {
			want, err = stored(p.im)
		} else {
			want, err = stored(hx.Unknown{p.im})
		}
	})

	if r.Done() {
		return
	}

	if err == nil {
		if b := merged.Bounds(); b.Dx() != p.w || b.Dy() != p.h {
			err = fmt.Errorf("it is %v, not %dx%d", b, p.w, p.h)
		} else {
			err = samePixels(merged, want, image.Rect(0, 0, p.w, p.h))
		}
	}

	if err == nil {
		err = covered(merged, p)
	}

	if err != nil {
		r.Violate("merged-image", "the merged image is not the flattened picture: %v", err)

		return
	}

	thumb, err := png.Decode(bytes.NewReader(a.files["Thumbnails/thumbnail.png"]))
	if err != nil {
		r.Violate("thumbnail", "%v", err)

		return
	}

	b := thumb.Bounds()
	long := max(p.w, p.h)

	if long <= 256 {
		if b.Dx() != p.w || b.Dy() != p.h {
			err = fmt.Errorf("it is %v, not %dx%d", b, p.w, p.h)
		} else {
			err = samePixels(thumb, want, image.Rect(0, 0, p.w, p.h))
		}
	} else {
		r.Probe("scaled-thumbnail")

		err = scaled(thumb, want, p.w, p.h)
	}

	if err != nil {
		r.Violate("thumbnail", "the thumbnail is not the picture: %v", err)
	}
}

// covered compares a flattened picture with the model, where that says what is
// to be seen. Colours of next to nothing are not compared.
func covered(flat image.Image, p picture) error {
	b := flat.Bounds()

	for y := 0; y < p.h; y += 1 + p.h/100 {
		for x := 0; x < p.w; x += 1 + p.w/100 {
			e, known := hx.Flat(p.nodes, x, y)
			if !known {
				continue
			}

			c := nrgba(flat.At(b.Min.X+x, b.Min.Y+y))
			g := [4]float64{float64(c.R) / 65535, float64(c.G) / 65535, float64(c.B) / 65535, float64(c.A) / 65535}

			for i := range g {
				if d := math.Abs(g[i] - e[i]); d > 2.0/255 && (i == 3 || e[3] > 0.1) {
					return fmt.Errorf("pixel %d,%d is %.3f, and the layers there give %.3f", x, y, g, e)
				}
			}
		}
	}

	return nil
}

// scaled checks that thumb is a reduced rendering of full: it fits 256 by 256
// and fills it one way, keeps the proportions, and each pixel lies within what
// the picture holds around the corresponding place.
func scaled(thumb, full image.Image, w, h int) error {
	tb, fb := thumb.Bounds(), full.Bounds()
	tw, th := tb.Dx(), tb.Dy()

	if tw > 256 || th > 256 || tw < 1 || th < 1 || max(tw, th) < 255 {
		return fmt.Errorf("%dx%d does not fill 256x256", tw, th)
	}

	scale := float64(max(w, h)) / 256

	if dw, dh := float64(tw)-float64(w)/scale, float64(th)-float64(h)/scale; dw < -1 || dw > 1 || dh < -1 || dh > 1 {
		return fmt.Errorf("%dx%d is not %dx%d in proportion", tw, th, w, h)
	}

	for y := 0; y < th; y += 1 + th/40 {
		for x := 0; x < tw; x += 1 + tw/40 {
			lo := [4]uint32{0xffff, 0xffff, 0xffff, 0xffff}
			hi := [4]uint32{}
			m := int(scale) + 2

			for j := int(float64(y)*float64(h)/float64(th)) - m; j <= int(float64(y+1)*float64(h)/float64(th))+m; j++ {
				for i := int(float64(x)*float64(w)/float64(tw)) - m; i <= int(float64(x+1)*float64(w)/float64(tw))+m; i++ {
					if i < 0 || j < 0 || i >= w || j >= h {
						continue
					}

					for k, v := range rgba(full.At(fb.Min.X+i, fb.Min.Y+j)) {
						lo[k], hi[k] = min(lo[k], v), max(hi[k], v)
					}
				}
			}

			for k, v := range rgba(thumb.At(tb.Min.X+x, tb.Min.Y+y)) {
				if v+0x101 < lo[k] || v > hi[k]+0x101 {
					return fmt.Errorf("pixel %d,%d of %dx%d has channel %d %04x, the picture has %04x to %04x there", x, y, tw, th, k, v, lo[k], hi[k])
				}
			}
		}
	}

	return nil
}

func rgba(c color.Color) [4]uint32 {
	r, g, b, a := c.RGBA()

	return [4]uint32{r, g, b, a}
}

// A file to decode: written by this library or by another program.
func genFile(r *core.Run, o genOpts) (picture, []byte) {
	p := genPicture(r, o)

	if r.N(2) == 0 {
		w, err, _ := encode(r, p.im, hx.WritePlan{})
		if r.Done() {
			return p, nil
		}

		if err != nil {
			r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v", err)
		}

		r.Event("own file %d bytes: %s", len(w.Data), p.desc)

		return p, w.Data
	}

	if r.N(3) == 2 {
		p = cut(r, p)
	}

	data := hx.WriteORA(r, p.nodes, p.w, p.h)

	r.Event("foreign file %d bytes: %s", len(data), p.desc)

	return p, data
}

// openOps is how many reads opening the archive takes, before any decoding.
func openOps(r *core.Run, data []byte) int {
	d := hx.NewReaderAt(r, data, hx.ReadPlan{})

	zip.NewReader(d, int64(len(data)))

	return d.Ops
}

func c03(r *core.Run) {
	p, data := genFile(r, genOpts{maxTop: 3, depth: 2})
	if r.Done() {
		return
	}

	size := int64(len(data))

	// Fault-free: how many reads there are, and what the picture is.
	dry := hx.NewReaderAt(r, data, hx.ReadPlan{})

	im, err := decode(r, dry, size)
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("intact-not-readable", "an intact file does not decode: %v", err)

		return
	}

	if err := sameLayers(im, p.nodes, p.w, p.h, ""); err != nil {
		r.Violate("intact-differs", "an intact file decodes to another picture: %v", err)

		return
	}

	good := fingerprint(im)
	ops := dry.Ops
	first := openOps(r, data)
	dryc := hx.NewReaderAt(r, data, hx.ReadPlan{})

	c, err := decodeConfig(r, dryc, size)
	if r.Done() {
		return
	} else if err != nil || c.Width != p.w || c.Height != p.h {
		r.Violate("intact-differs", "an intact file has dimensions %dx%d (%v), not %dx%d", c.Width, c.Height, err, p.w, p.h)

		return
	}

	for i, n := 0, 2+r.F(10); i < n; i++ {
		if r.FBool(4) { // dimensions only
			d := hx.NewReaderAt(r, data, hx.DrawReadPlanFrom(r, first, dryc.Ops, size))

			c, err := decodeConfig(r, d, size)
			if r.Done() {
				return
			}

			r.Event("dimensions: fired=%v err=%v", d.Fired, err)

			if err == nil && (c.Width != p.w || c.Height != p.h) {
				r.Violate("wrong-after-read-fault", "after a read fault the dimensions are %dx%d, not %dx%d", c.Width, c.Height, p.w, p.h)

				return
			}

			if err != nil && !d.Fired {
				r.Violate("intact-not-readable", "healthy reads failed: %v", err)

				return
			}

			continue
		}

		plan := hx.DrawReadPlanFrom(r, first, ops, size)
		length := size

		if plan.Kind == hx.ReadCut && r.FBool(2) {
			length = plan.Size // the archive reader knows the shorter length
		}

		d := hx.NewReaderAt(r, data, plan)

		im, err := decode(r, d, length)
		if r.Done() {
			return
		}

		r.Event("decode: fired=%v err=%v", d.Fired, err)

		if err == nil {
			if f := fingerprint(im); f != good {
				r.Violate("wrong-after-read-fault", "after a read fault decoding succeeded with another picture: %s, not %s", f, good)

				return
			}

			if d.Fired {
				r.Probe("fault-survived")
			}
		} else if !d.Fired && length == size {
			r.Violate("intact-not-readable", "healthy reads failed: %v", err)

			return
		}
	}
}

// damage changes stored bytes the way a disk or a crash does.
func damage(r *core.Run, data, older []byte) []byte {
	b := append([]byte(nil), data...)

	for i, n := 0, 1+r.F(3)/2; i < n; i++ {
		if len(b) == 0 {
			break
		}

		at := r.F(len(b))

		if r.FBool(4) { // near the end: the central directory
			at = len(b) - 1 - r.F(min(len(b), 600))
		}

		switch r.F(7) {
		case 0, 1:
			bit := r.F(8)
			b[at] ^= 1 << bit

			r.FaultFired("bit-flip", "bit %d of byte %d of %d", bit, at, len(b))
		case 2:
			v := byte(r.F(256))
			if v == b[at] {
				v++
			}

			b[at] = v

			r.FaultFired("byte-changed", "byte %d of %d to %02x", at, len(b), v)
		case 3, 4: // sectors lost in a crash: zero, or what was there before
			s := at / hx.SectorSize * hx.SectorSize
			e := min(s+hx.SectorSize*(1+r.F(3)), len(b))
			kind := "sector-lost"

			for j := s; j < e; j++ {
				b[j] = 0
			}

			if len(older) > 0 && r.FBool(2) {
				kind = "sector-stale"

				for j := s; j < e && j < len(older); j++ {
					b[j] = older[j]
				}
			}

			r.FaultFired(kind, "bytes %d to %d of %d", s, e, len(b))
		case 5: // cut in a crash
			b = b[:at]

			r.FaultFired("file-cut", "at %d of %d", at, len(data))
		case 6: // a burst
			e := min(at+1+r.F(16), len(b))
			for j := at; j < e; j++ {
				b[j] = byte(r.F(256))
			}

			r.FaultFired("burst", "bytes %d to %d of %d", at, e, len(b))
		}
	}

	return b
}

func c04(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, kinds: []int{hx.KNRGBA, hx.KOpaque, hx.KGray, hx.KPaletted}})
	w, err, _ := encode(r, p.im, hx.WritePlan{})

	if r.Done() {
		return
	} else if err != nil {
		r.Violate("healthy-write-failed", "encoding to a healthy writer failed: %v", err)

		return
	}

	data := w.Data
	r.Event("file %d bytes: %s", len(data), p.desc)

	good, err := decode(r, bytes.NewReader(data), int64(len(data)))
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("intact-not-readable", "an intact file does not decode: %v", err)

		return
	}

	want := fingerprint(good)

	// What the disk held before: another version of the file.
	var older []byte

	if r.N(2) == 0 {
		q := genPicture(r, genOpts{maxTop: 2, kinds: []int{hx.KNRGBA}})

		w, _, _ := encode(r, q.im, hx.WritePlan{})
		if r.Done() {
			return
		}

		older = w.Data
	}

	for i, n := 0, 4+r.F(20); i < n; i++ {
		b := damage(r, data, older)

		im, err := decode(r, bytes.NewReader(b), int64(len(b)))
		if r.Done() {
			return
		}

		if err == nil {
			r.Probe("damage-invisible")

			if f := fingerprint(im); f != want {
				r.Violate("damaged-accepted", "a damaged file decodes to another picture: %s, not %s", f, want)

				return
			}
		}

		c, cerr := decodeConfig(r, bytes.NewReader(b), int64(len(b)))
		if r.Done() {
			return
		}

		if cerr == nil && (c.Width != p.w || c.Height != p.h) {
			r.Violate("damaged-accepted", "a damaged file has dimensions %dx%d, not %dx%d", c.Width, c.Height, p.w, p.h)

			return
		}

		r.Event("decode err=%v dimensions err=%v", err, cerr)
	}
}

// counting watches the entries of an archive.
type counting struct {
	r           *core.Run
	opened      int
	closed      int
	afterClose  int
	returned    bool
	afterReturn int
}

type entryReader struct {
	c    *counting
	rc   io.ReadCloser
	done bool
}

func (e *entryReader) Read(p []byte) (int, error) {
	if e.done {
		e.c.afterClose++
	}

	e.c.use()

	return e.rc.Read(p)
}

func (c *counting) use() {
	if c.returned {
		c.afterReturn++
	}
}

func (e *entryReader) Close() error {
	e.c.use()

	if e.done {
		return nil
	}

	e.done = true
	e.c.closed++

	return e.rc.Close()
}

func (c *counting) register(zr *zip.Reader) {
	zr.RegisterDecompressor(zip.Store, func(r io.Reader) io.ReadCloser {
		c.use()
		c.opened++

		return &entryReader{c: c, rc: io.NopCloser(r)}
	})

	inflate := newInflate()

	zr.RegisterDecompressor(zip.Deflate, func(r io.Reader) io.ReadCloser {
		c.use()
		c.opened++

		return &entryReader{c: c, rc: inflate(r)}
	})
}

// inconsistent makes an archive whose parts do not fit, so that decoding stops
// at different places with several entries involved.
func inconsistent(r *core.Run, p picture) []byte {
	var buf bytes.Buffer

	zw := zip.NewWriter(&buf)
	put := func(name, data string) {
		m := zip.Deflate
		if r.N(2) == 0 {
			m = zip.Store
		}

		w, err := zw.CreateHeader(&zip.FileHeader{Name: name, Method: m})
		if err == nil {
			_, err = w.Write([]byte(data))
		}

		if err != nil {
			panic(err)
		}
	}

	mime := "image/openraster"

	switch r.F(10) {
	case 0:
		mime = "image/openrasteR"
	case 1:
		mime = "image/png"
	}

	put("mimetype", mime)

	var pb bytes.Buffer

	if err := png.Encode(&pb, image.NewNRGBA(image.Rect(0, 0, 3, 2))); err != nil {
		panic(err)
	}

	good := pb.String()
	layers := r.N(4)
	kind := r.F(13)
	bad := r.F(layers + 1)

	var sb bytes.Buffer

	head := `<image w="9" h="9">`

	switch kind {
	case 1:
		head = `<image w="9">`
	case 2:
		head = `<image w="x" h="9">`
	case 3:
		head = `<picture w="9" h="9">`
	case 4:
		head = ``
	}

	sb.WriteString(head)
	sb.WriteString("<stack>")

	for i := 0; i <= layers; i++ {
		attr, data, src := "", good, fmt.Sprintf("data/%d.png", i)

		if i == bad {
			switch kind {
			case 5:
				attr = ` x="one"`
			case 6:
				attr = ` opacity="much"`
			case 7:
				data = "not an image"
			case 8:
				data = good[:len(good)/2]
			case 9:
				src = "data/missing.png"
			case 10:
				data = good[:40] + "x" + good[41:]
			case 11:
				attr = ` y=`
			}
		}

		put(fmt.Sprintf("data/%d.png", i), data)

		if r.N(4) == 0 {
			fmt.Fprintf(&sb, `<stack><layer src="%s"%s></layer></stack>`, src, attr)
		} else {
			fmt.Fprintf(&sb, `<layer src="%s"%s></layer>`, src, attr)
		}
	}

	if kind != 12 {
		sb.WriteString("</stack></image>")
	}

	stack := sb.String()
	if kind == 4 {
		stack = "   "
	}

	put("stack.xml", stack)

	if err := zw.Close(); err != nil {
		panic(err)
	}

	if kind > 0 {
		r.FaultFired("inconsistent-file", "kind %d layer %d of %d mime %s", kind, bad, layers+1, mime)
	}

	return buf.Bytes()
}

func c05(r *core.Run) {
	var data []byte

	foreign := r.N(3) > 0

	p, file := genFile(r, genOpts{maxTop: 3, depth: 2, kinds: []int{hx.KNRGBA}})
	if r.Done() {
		return
	}

	ops := 0

	for i, n := 0, 3+r.F(8); i < n; i++ {
		data = file
		plan := hx.ReadPlan{}

		if foreign && r.FBool(2) {
			data = inconsistent(r, p)
		} else if r.FBool(3) {
			data = damage(r, file, nil)
		} else {
			if ops == 0 {
				d := hx.NewReaderAt(r, data, hx.ReadPlan{})
				decode(r, d, int64(len(data)))

				if r.Done() {
					return
				}

				ops = d.Ops
			}

			plan = hx.DrawReadPlanFrom(r, openOps(r, data), ops, int64(len(data)))
		}

		d := hx.NewReaderAt(r, data, plan)

		zr, err := zip.NewReader(d, int64(len(data)))
		if err != nil {
			r.Event("archive not readable: %v", err)

			continue
		}

		c := &counting{r: r}
		c.register(zr)

		config := r.FBool(3)

		left := 0

		res := r.Call("decode", func() {
			if config {
				_, err = ora.DecodeConfig(zr)
			} else {
				_, err = ora.Decode(zr)
			}

			c.returned, left = true, c.opened-c.closed
		})

		if r.Done() || res.Panic != nil {
			return
		}

		r.Event("decode config=%v err=%v opened=%d closed=%d", config, err, c.opened, c.closed)

		if err != nil && c.opened > 1 {
			r.Probe("failed-with-several-entries")
		}

		switch {
		case left > 0:
			r.Violate("entry-left-open", "%d of %d opened entries were not closed (config %v, error %v)", left, c.opened, config, err)
		case c.afterReturn > 0:
			r.Violate("entry-used-after-return", "an entry was used after decoding had returned")
		case c.afterClose > 0:
			r.Violate("entry-used-after-close", "an entry was read after it was closed")
		}

		if r.Done() {
			return
		}
	}
}
