//go:build go1.25

package hxcf

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"io"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() { hx.Scenarios["C18"] = c18 }

// The blend modes that OpenRaster has names for.
var named = map[limage.Composite]bool{
	limage.CompositeMultiply: true, limage.CompositeScreen: true, limage.CompositeOverlay: true,
	limage.CompositeDarkenOnly: true, limage.CompositeLightenOnly: true, limage.CompositeDodge: true,
	limage.CompositeBurn: true, limage.CompositeHardLight: true, limage.CompositeSoftLight: true,
	limage.CompositeDifference: true, limage.CompositeColor: true, limage.CompositeLuminosity: true,
	limage.CompositeHue: true, limage.CompositeSaturation: true, limage.CompositePlus: true,
	limage.CompositeDestinationIn: true, limage.CompositeDestinationOut: true,
	limage.CompositeSourceAtop: true, limage.CompositeDestinationAtop: true,
}

// hollow says whether there are layers of which nothing is left, or none at all.
func hollow(im limage.Image) bool {
	for _, l := range im {
		if l.LayerBounds.Empty() || l.Image == nil || l.Image.Bounds().Empty() {
			return true
		}

		if g, ok := l.Image.(limage.Image); ok && (len(g) == 0 || hollow(g)) {
			return true
		}
	}

	return false
}

// moved compares a picture with one that was made of it through a file.
type moved struct {
	want  func(e, got color.Color) error
	modes func(m limage.Composite) (limage.Composite, bool)
}

// layers compares stacks, the origins of which are at the given points of the
// canvas. What is outside of box does not show, and may be gone.
func (m moved) layers(got, exp limage.Image, gat, eat image.Point, box image.Rectangle, path string) error {
	if len(got) != len(exp) {
		return fmt.Errorf("%s has %d layers, not %d", path, len(got), len(exp))
	}

	for i, e := range exp {
		g := got[i]
		p := fmt.Sprintf("%s/%d", path, i)
		mode, known := m.modes(e.Mode)

		switch {
		case g.Name != e.Name:
			return fmt.Errorf("%s: name %q, not %q", p, g.Name, e.Name)
		case g.Invisible != e.Invisible:
			return fmt.Errorf("%s: hidden %v, not %v", p, g.Invisible, e.Invisible)
		case g.Transparency != e.Transparency:
			return fmt.Errorf("%s: transparency %d, not %d", p, g.Transparency, e.Transparency)
		case known && g.Mode != mode:
			return fmt.Errorf("%s: mode %d, not %d", p, g.Mode, mode)
		}

		gb, eb := g.LayerBounds.Add(gat), e.LayerBounds.Add(eat)
		eg, ok := e.Image.(limage.Image)
		gg, ok2 := g.Image.(limage.Image)

		if ok != ok2 {
			return fmt.Errorf("%s: %T, not %T", p, g.Image, e.Image)
		}

		see := eb.Intersect(box)

		if ok {
			if err := m.layers(gg, eg, gb.Min, eb.Min, see, p); err != nil {
				return err
			}

			continue
		}

		if !gb.In(eb) || !see.In(gb) {
			return fmt.Errorf("%s: at %v, not %v", p, gb, eb)
		}

		if random(e.Image) {
			continue
		}

		go_, eo := g.Image.Bounds().Min.Sub(gb.Min), e.Image.Bounds().Min.Sub(eb.Min)

		for y := gb.Min.Y; y < gb.Max.Y; y++ {
			for x := gb.Min.X; x < gb.Max.X; x++ {
				if err := m.want(e.Image.At(x+eo.X, y+eo.Y), g.Image.At(x+go_.X, y+go_.Y)); err != nil {
					return fmt.Errorf("%s: pixel %d,%d: %w", p, x, y, err)
				}
			}
		}
	}

	return nil
}

// alike compares colours of which one went through a file that holds it in
// eight or sixteen bits. Passing through premultiplied colours may cost a level.
func alike(e, got color.Color) error {
	ev, _ := straight(e)
	gv, _ := straight(got)

	if math.Abs(ev[3]-gv[3]) > 257 {
		return fmt.Errorf("alpha of %v, not of %v", got, e)
	}

	if ev[3] < 257 || gv[3] < 257 {
		return nil
	}

	tol := 257 + 65535*65535/(255*math.Min(ev[3], gv[3]))
	if ev[3] == 0xffff {
		tol = 257
	}

	if _, exact := straight(e); exact {
		tol = math.Min(tol, 257)
	}

	for i := range 3 {
		if math.Abs(ev[i]-gv[i]) > tol {
			return fmt.Errorf("%v, not %v", got, e)
		}
	}

	return nil
}

type pointWriter struct {
	r *core.Run
	w io.Writer
}

func (p pointWriter) Write(b []byte) (int, error) {
	p.r.Point("write")

	return p.w.Write(b)
}

// c18 converts pictures between the formats.
func c18(r *core.Run) {
	deferred := r.N(2) == 1
	f := genFile(r, !deferred && r.N(4) == 3) // every row reads all of its tiles
	b := f.build(r, true)

	r.Event("%s; deferred %v", f.desc, deferred)

	im, err := decode(r, f.reader(r, b, hx.ReadPlan{EOF: r.FBool(2)}), deferred)
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("not-readable", "a valid file does not decode (deferred %v): %v (%s)", deferred, err, f.desc)

		return
	}

	if len(im) == 0 || hollow(im) {
		r.Probe("nothing-to-save")

		return
	}

	save := func(plan hx.WritePlan) (*hx.Writer, error) {
		var err error

		w := hx.NewWriter(r, plan)
		r.Call("Encode", func() { err = ora.Encode(w, im) })

		return w, err
	}

	dry, err := save(hx.WritePlan{})
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("not-convertible", "a picture from an XCF file cannot be saved as OpenRaster (deferred %v): %v (%s)", deferred, err, f.desc)

		return
	}

	data := dry.Data

	if plan := hx.DrawWritePlan(r, dry.Ops, dry.Bytes, false); plan.Kind != hx.WriteOK {
		w, err := save(plan)
		if r.Done() {
			return
		}

		if err == nil {
			data = w.Data
		} else if w.Err == nil {
			r.Violate("not-convertible", "saving failed without a fault: %v", err)

			return
		}
	}

	var back limage.Image

	load := func(data []byte) (limage.Image, error) {
		var (
			out limage.Image
			err error
		)

		d := hx.NewReaderAt(r, data, hx.ReadPlan{EOF: r.FBool(2)})

		zr, err := zip.NewReader(d, int64(len(data)))
		if err == nil {
			r.Call("Decode", func() { out, err = ora.Decode(zr) })
		}

		return out, err
	}

	cv := im.Bounds()
	whole := image.Rect(0, 0, cv.Dx(), cv.Dy())
	cmp := moved{want: alike, modes: func(m limage.Composite) (limage.Composite, bool) {
		if named[m] {
			return m, true
		}

		return limage.CompositeNormal, true
	}}
	same := func(got limage.Image) bool {
		var diff error

		look(r, func() error {
			diff = cmp.layers(got, im, image.Point{}, image.Point{}.Sub(cv.Min), whole, "")
			return nil
		})

		if !r.Done() && diff != nil {
			r.Violate("converted-differs", "the OpenRaster picture made of an XCF file differs (deferred %v): %v (%s)", deferred, diff, f.desc)
		}

		return !r.Done()
	}

	back, err = load(data)
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("converted-not-readable", "the OpenRaster picture made of an XCF file does not decode (deferred %v): %v (%s)", deferred, err, f.desc)

		return
	}

	if !same(back) {
		return
	}

	if r.N(4) == 3 { // several threads at once
		fns := make([]func(), 2+r.N(2))

		for i := range fns {
			fns[i] = func() {
				var (
					buf bytes.Buffer
					err error
				)

				r.Call("Encode", func() { err = ora.Encode(pointWriter{r, &buf}, im) })

				if r.Done() {
					return
				} else if err != nil || !random(im) && !bytes.Equal(buf.Bytes(), dry.Data) {
					r.Violate("differs-together", "saving the picture from several threads gives %d bytes %08x (%v), not %d bytes %08x (%s)", buf.Len(), crc32.ChecksumIEEE(buf.Bytes()), err, len(dry.Data), crc32.ChecksumIEEE(dry.Data), f.desc)
				}
			}
		}

		if r.Concurrent(fns...); r.Done() {
			return
		}
	}

	// And to the first format again.
	w, err, _ := encode(r, back, hx.WritePlan{})
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("not-convertible", "a picture from an OpenRaster file cannot be saved as XCF: %v (%s)", err, f.desc)

		return
	}

	again, err := decode(r, hx.NewReaderAt(r, w.Data, hx.ReadPlan{}), r.N(2) == 1)
	if r.Done() {
		return
	} else if err != nil {
		r.Violate("converted-not-readable", "the XCF file made of an OpenRaster picture does not decode: %v (%s)", err, f.desc)

		return
	}

	bb := back.Bounds()
	cmp.modes = func(m limage.Composite) (limage.Composite, bool) { return 0, false }

	if bb.Min != (image.Point{}) {
		r.Probe("moved")
	}

	var diff error

	look(r, func() error {
		diff = cmp.layers(again, back, image.Point{}, image.Point{}.Sub(bb.Min), image.Rect(0, 0, bb.Dx(), bb.Dy()), "")

		return nil
	})

	if !r.Done() && diff != nil {
		r.Violate("converted-differs", "the XCF picture made of an OpenRaster file differs: %v (%s)", diff, f.desc)
	}
}

// random says whether a picture shows by chance.
func random(im image.Image) bool {
	switch im := im.(type) {
	case limage.MaskedImage:
		return random(im.Image)
	case limage.Text:
		return random(im.Image)
	case limage.Image:
		for _, l := range im {
			if l.Mode == limage.CompositeDissolve || random(l.Image) {
				return true
			}
		}
	}

	return false
}
