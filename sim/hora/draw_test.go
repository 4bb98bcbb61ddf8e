//go:build go1.25

package hora

import (
	"bytes"
	"image"
	"image/color"
	"image/draw"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() { hx.Scenarios["C17"] = c17 }

// drawable is what can be drawn on.
type drawable interface {
	draw.Image
	SubImage(image.Rectangle) image.Image
	Opaque() bool
}

func newDrawable(kind int, b image.Rectangle, pal lcolor.AlphaPalette) drawable {
	switch kind {
	case 0:
		return limage.NewRGB(b)
	case 1:
		return limage.NewGrayAlpha(b)
	}

	return limage.NewPalettedAlpha(b, pal)
}

// direct sets a pixel without conversion.
func direct(d drawable, x, y int, v [4]uint8) {
	switch d := d.(type) {
	case *limage.RGB:
		d.SetRGB(x, y, lcolor.RGB{R: v[0], G: v[1], B: v[2]})
	case *limage.GrayAlpha:
		d.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: v[0], A: v[3]})
	case *limage.PalettedAlpha:
		d.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: v[0] % uint8(len(d.Palette)), A: v[3]})
	}
}

// colourOf is how a pixel that was set directly shows.
func colourOf(d drawable, v [4]uint8) color.Color {
	switch d := d.(type) {
	case *limage.RGB:
		return lcolor.RGB{R: v[0], G: v[1], B: v[2]}
	case *limage.GrayAlpha:
		return lcolor.GrayAlpha{Y: v[0], A: v[3]}
	case *limage.PalettedAlpha:
		c := d.Palette[v[0]%uint8(len(d.Palette))].(lcolor.RGB)

		return color.NRGBA{c.R, c.G, c.B, v[3]}
	}

	return nil
}

// shows reports whether what was drawn can be how a colour shows in a kind of
// picture: its opacity and, of what is opaque, the colour, the brightness or
// the nearest of the palette.
func shows(kind int, pal lcolor.AlphaPalette, c, got color.Color) bool {
	cr, cg, cb, ca := c.RGBA()
	gr, gg, gb, ga := got.RGBA()
	diff := func(a, b uint32) float64 { return math.Abs(float64(a) - float64(b)) }

	switch {
	case kind == 0 && ga != 0xffff, kind != 0 && diff(ga, ca) > 257:
		return false
	case ca != 0xffff:
		return true
	}

	switch kind {
	case 0:
		return diff(cr, gr) <= 257 && diff(cg, gg) <= 257 && diff(cb, gb) <= 257
	case 1:
		return gr == gg && gg == gb && math.Abs(0.299*float64(cr)+0.587*float64(cg)+0.114*float64(cb)-float64(gr)) <= 2*257
	}

	far := func(r, g, b uint32) float64 {
		return math.Sqrt(diff(cr, r)*diff(cr, r) + diff(cg, g)*diff(cg, g) + diff(cb, b)*diff(cb, b))
	}
	best := math.Inf(1)

	for _, e := range pal {
		r, g, b, _ := e.RGBA()
		best = math.Min(best, far(r, g, b))
	}

	return far(gr, gg, gb) <= best+8
}

// c17 draws on disjoint parts of one picture from several threads.
func c17(r *core.Run) {
	kind := r.N(3)
	w, h := hx.GenSize(r, false)
	b := image.Rect(0, 0, w, h).Add(image.Pt(r.N(40)-20, r.N(40)-20))

	var pal lcolor.AlphaPalette

	for i, n := 0, 1+r.N(12); i < n; i++ {
		pal = append(pal, lcolor.RGB{R: uint8(r.N(256)), G: uint8(r.N(256)), B: uint8(i * 20)})
	}

	pic := newDrawable(kind, b, pal)
	other := newDrawable(kind, b, pal) // of the same palette
	model := map[image.Point]color.Color{}
	solid := r.N(2) == 1

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			v := [4]uint8{uint8(r.N(256)), uint8(x), uint8(y), 255}

			if !solid {
				v[3] = []uint8{255, 0, 128, 254}[r.N(4)]
			}

			direct(pic, x, y, v)
			direct(other, x, y, v)
			model[image.Pt(x, y)] = colourOf(pic, v)
		}
	}

	// Every thread has a part. What is left belongs to none.
	var parts []image.Rectangle

	threads := 2 + r.N(3)
	rest := b

	for len(parts) < threads && (rest.Dx() > 1 || rest.Dy() > 1) {
		p := rest

		if rest.Dx() > 1 && (rest.Dy() <= 1 || r.N(2) == 0) {
			p.Max.X = p.Min.X + 1 + r.N(rest.Dx()-1)
			rest.Min.X = p.Max.X
		} else {
			p.Max.Y = p.Min.Y + 1 + r.N(rest.Dy()-1)
			rest.Min.Y = p.Max.Y
		}

		parts = append(parts, p)
	}

	if len(parts) < threads {
		parts = append(parts, rest)
	}

	r.Event("%T %v, parts %v", pic, b, parts)

	var fns []func()

	for t, part := range parts {
		steps := drawing(r, t, pic, kind, pal, part, b, model)

		fns = append(fns, func() {
			for _, s := range steps {
				if r.Call("drawing", s); r.Done() {
					return
				}
			}
		})
	}

	if r.N(3) == 2 {
		want := encodeOp(r, other)()

		fns = append(fns, func() {
			var got string

			if r.Call("Encode", func() { got = encodeOp(r, other)() }); !r.Done() && got != want {
				r.Violate("differs-together", "a picture is saved differently while another with its palette is drawn on: %s, not %s", got, want)
			}
		})
	}

	r.Concurrent(fns...)

	if r.Done() {
		return
	}

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if c := model[image.Pt(x, y)]; pic.At(x, y) != c {
				r.Violate("drawing-lost", "pixel %d,%d is %v, not %v, after %d threads drew on %v", x, y, pic.At(x, y), c, len(parts), parts)

				return
			}
		}
	}
}

// drawing makes what a thread does with its part of the picture, and draws it
// in the model.
func drawing(r *core.Run, t int, pic drawable, kind int, pal lcolor.AlphaPalette, part, all image.Rectangle, model map[image.Point]color.Color) []func() {
	sub := pic.SubImage(part).(drawable)
	own := map[image.Point]color.Color{}

	for y := part.Min.Y; y < part.Max.Y; y++ {
		for x := part.Min.X; x < part.Max.X; x++ {
			own[image.Pt(x, y)] = model[image.Pt(x, y)]
		}
	}

	var (
		steps []func()
		last  image.Point
	)

	point := func() image.Point {
		switch r.N(6) {
		case 4:
			return last // once more
		case 5: // an edge
			last = part.Min

			if r.N(2) == 1 {
				last = part.Max.Sub(image.Pt(1, 1))
			}

			return last
		}

		last = part.Min.Add(image.Pt(r.N(part.Dx()), r.N(part.Dy())))

		return last
	}
	last = part.Min

	for i, n := 0, 2+r.N(14); i < n; i++ {
		on := sub

		p := point()

		switch r.N(5) {
		case 3:
			on = pic
		case 4:
			on = nil // a smaller part, made when it is needed
		}

		with := func(f func(d drawable)) {
			steps = append(steps, func() {
				d := on
				if d == nil {
					d = pic.SubImage(image.Rectangle{p, part.Max}).(drawable)
				}

				f(d)
			})
		}

		switch r.N(9) {
		case 0, 1, 2:
			v := [4]uint8{uint8(r.N(256)), uint8(r.N(256)), uint8(r.N(256)), []uint8{255, 255, 0, 7}[r.N(4)]}
			own[p] = colourOf(pic, v)

			with(func(d drawable) { direct(d, p.X, p.Y, v) })
		case 3, 4: // converted, in the way it is when nothing else happens
			c := colour(r, opacity(r))
			ref := newDrawable(kind, image.Rectangle{p, p.Add(image.Pt(1, 1))}, pal)
			ref.Set(p.X, p.Y, c)
			own[p] = ref.At(p.X, p.Y)

			if !shows(kind, pal, c, own[p]) {
				r.Violate("drawn-otherwise", "%T %v shows as %T %v on %T", c, c, own[p], own[p], ref)
			}

			with(func(d drawable) { d.Set(p.X, p.Y, c) })
		case 5: // beyond the part
			q := []image.Point{{part.Max.X, p.Y}, {p.X, part.Max.Y}, {part.Min.X - 1, p.Y}, {p.X, part.Min.Y - 1}}[r.N(4)]
			v := [4]uint8{99, 88, 77, 66}
			c := colour(r, 0xffff)
			on = sub

			with(func(d drawable) {
				direct(d, q.X, q.Y, v)
				d.Set(q.X, q.Y, c)
			})
		case 6:
			want := own[p]

			with(func(d drawable) {
				if got := d.At(p.X, p.Y); got != want {
					r.Violate("drawing-lost", "thread %d reads %v at %v, and set it to %v", t, got, p, want)
				}
			})
		case 7:
			if on == pic {
				on = sub
			}

			min := part.Min
			if on == nil {
				min = p
			}

			want := true

			for q, c := range own {
				if _, _, _, a := c.RGBA(); q.In(image.Rectangle{min, part.Max}) && a != 0xffff {
					want = false
				}
			}

			with(func(d drawable) {
				if got := d.Opaque(); got != want {
					r.Violate("drawing-lost", "thread %d finds %v opaque: %v, not %v", t, d.Bounds(), got, want)
				}
			})
		case 8:
			copied := newDrawable(kind, part, pal)

			for q, c := range own {
				switch d := copied.(type) {
				case *limage.PalettedAlpha:
					n := c.(color.NRGBA)

					for k, pc := range d.Palette {
						if pc == (lcolor.RGB{R: n.R, G: n.G, B: n.B}) {
							d.SetIndexAlpha(q.X, q.Y, lcolor.IndexedAlpha{I: uint8(k), A: n.A})

							break
						}
					}
				default:
					copied.Set(q.X, q.Y, c)
				}
			}

			var want bytes.Buffer

			if err := ora.Encode(&want, copied); err != nil {
				r.Broken = err.Error()

				return nil
			}

			on = sub

			with(func(d drawable) {
				var got bytes.Buffer

				if err := ora.Encode(pointWriter{r, &got}, d); err != nil || !bytes.Equal(got.Bytes(), want.Bytes()) {
					r.Violate("differs-together", "thread %d saves its part as %s (%v), and it is %s when it is a picture of its own", t, sum(got.Bytes()), err, sum(want.Bytes()))
				}
			})
		}
	}

	for p, c := range own {
		model[p] = c
	}

	r.Event("thread %d on %v: %d steps", t, part, len(steps))

	return steps
}
