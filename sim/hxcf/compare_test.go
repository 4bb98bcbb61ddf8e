//go:build go1.25

package hxcf

import (
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/hx"
)

// straight gives a colour without premultiplied alpha, 16 bit, as floats.
// exact says whether it has 8 bit channels to begin with.
func straight(c color.Color) (v [4]float64, exact bool) {
	of8 := func(r, g, b, a uint8) ([4]float64, bool) {
		return [4]float64{float64(r) * 257, float64(g) * 257, float64(b) * 257, float64(a) * 257}, true
	}

	switch c := c.(type) {
	case nil:
		return v, false
	case color.NRGBA:
		return of8(c.R, c.G, c.B, c.A)
	case color.Gray:
		return of8(c.Y, c.Y, c.Y, 255)
	case lcolor.RGB:
		return of8(c.R, c.G, c.B, 255)
	case lcolor.GrayAlpha:
		return of8(c.Y, c.Y, c.Y, c.A)
	case color.Alpha:
		return of8(255, 255, 255, c.A)
	case color.NRGBA64:
		return [4]float64{float64(c.R), float64(c.G), float64(c.B), float64(c.A)}, false
	}

	r, g, b, a := c.RGBA()
	if a == 0 {
		return v, false
	}

	f := func(x uint32) float64 { return float64(x) * 0xffff / float64(a) }

	return [4]float64{f(r), f(g), f(b), float64(a)}, false
}

// leaf takes a layer's content apart.
func leaf(im image.Image) (px image.Image, mask *image.Gray, text limage.TextData, err error) {
	for {
		switch t := im.(type) {
		case limage.MaskedImage:
			if mask != nil {
				return nil, nil, nil, fmt.Errorf("two masks")
			}

			mask, im = t.Mask, t.Image

			if mask == nil {
				return nil, nil, nil, fmt.Errorf("a masked image without a mask")
			}
		case *limage.MaskedImage:
			im = *t
		case limage.Text:
			if text != nil {
				return nil, nil, nil, fmt.Errorf("two texts")
			}

			text, im = t.TextData, t.Image

			if text == nil {
				text = limage.TextData{}
			}
		case *limage.Text:
			im = *t
		case *limage.Image:
			im = *t
		default:
			return im, mask, text, nil
		}
	}
}

// expectation of the pixels of one layer.
type want func(x, y int, got color.Color) error

// storedWant expects exactly the values in a file.
func storedWant(n *hx.Node) want {
	return func(x, y int, got color.Color) error {
		e := n.Pix.At(x, y)
		if !hasAlpha(n.Pix.Kind) {
			e.A = 255
		}

		ev, _ := straight(e)
		gv, _ := straight(got)

		if gv != ev {
			return fmt.Errorf("pixel %d,%d is %v, not %v", x, y, got, e)
		}

		return nil
	}
}

// given is the colour a layer was given at a point: where the kind of image
// holds the very pixels of the model, it does not depend on what the image says
// of itself.
func given(n *hx.Node, x, y int) color.Color {
	switch n.Pix.Kind {
	case hx.KRGBA, hx.KNRGBA64, hx.KYCbCr, hx.KGray16:
		return n.Img.At(x, y)
	}

	return n.Pix.At(x, y)
}

// luma is the luminance of a colour.
func luma(v [4]float64) float64 { return 0.299*v[0] + 0.587*v[1] + 0.114*v[2] }

// savedWant expects what a picture of the given colour type keeps of a layer.
func savedWant(n *hx.Node, base int, pal []color.Color) want {
	return func(x, y int, got color.Color) error {
		e := given(n, x, y)
		ev, exact := straight(e)
		gv, _ := straight(got)

		bad := func() error { return fmt.Errorf("pixel %d,%d is %v, not %v (%T)", x, y, got, e, e) }

		if math.Abs(ev[3]-gv[3]) > 257 || exact && ev[3] != gv[3] {
			return bad()
		}

		if gv[3] == 0 || ev[3] == 0 {
			return nil
		}

		tol := 257.0

		switch base {
		case baseRGB:
			if exact && (ev[3] == 0xffff || in(n.Pix.Kind, rgbKinds)) {
				tol = 0
			}
		case baseGray:
			y := luma(ev)
			if exact && ev[0] == ev[1] && ev[1] == ev[2] && (ev[3] == 0xffff || in(n.Pix.Kind, grayKinds)) {
				tol = 0
				y = ev[0]
			} else {
				tol = 1.5 * 257
			}

			ev[0], ev[1], ev[2] = y, y, y
		case baseIndexed:
			best, mine := math.Inf(1), math.Inf(1)

			for _, c := range pal {
				cv, _ := straight(c)

				d := 0.0
				for i := 0; i < 3; i++ {
					d += (cv[i] - ev[i]) * (cv[i] - ev[i])
				}

				best = math.Min(best, d)

				if cv[0] == gv[0] && cv[1] == gv[1] && cv[2] == gv[2] {
					mine = math.Min(mine, d)
				}
			}

			// A little worse than the nearest may be a matter of rounding.
			// Other kinds of pixels go by way of premultiplied colours, which
			// moves each of three channels by up to 1/255.
			slack := 4.0
			if !exact || ev[3] != 0xffff && !in(n.Pix.Kind, rgbKinds) {
				slack += 2 * 257 * math.Sqrt(3)
			}

			if math.Sqrt(mine) > math.Sqrt(best)+slack && !(exact && best == 0 && mine == 0) {
				return bad()
			}

			if exact && best == 0 && mine != 0 {
				return bad()
			}

			return nil
		}

		for i := 0; i < 3; i++ {
			if math.Abs(ev[i]-gv[i]) > tol {
				return bad()
			}
		}

		return nil
	}
}

// sameText compares texts. Neighbouring pieces that look alike are one.
func sameText(got, exp limage.TextData) error {
	type piece struct {
		fore, back [4]float64
		style      string
		data       string
	}

	norm := func(td limage.TextData) []piece {
		var out []piece

		for _, d := range td {
			p := piece{
				style: fmt.Sprintf("%q %d %d %d %v %v %v %v", d.Font, d.Size, d.LetterSpacing, d.Rise, d.Bold, d.Italic, d.Underline, d.Strikethrough),
				data:  d.Data,
			}

			p.fore, _ = straight(d.ForeColor)
			p.fore[3] = 0xffff
			p.back, _ = straight(d.BackColor)

			if p.back[3] == 0 {
				p.back = [4]float64{}
			}

			if k := len(out) - 1; k >= 0 && out[k].style == p.style && out[k].fore == p.fore && out[k].back == p.back {
				out[k].data += p.data

				continue
			}

			out = append(out, p)
		}

		return out
	}

	g, e := norm(got), norm(exp)

	for i := 0; i < len(g) || i < len(e); i++ {
		if i >= len(g) || i >= len(e) || g[i] != e[i] {
			return fmt.Errorf("text is %+v, not %+v", g, e)
		}
	}

	return nil
}

// comparison of a decoded picture with the model.
type comparison struct {
	canvas image.Rectangle
	want   func(n *hx.Node) want
	order  func(w, h int) []image.Point // how to walk the pixels; nil: by rows
}

func (c *comparison) picture(got limage.Image, exp []*hx.Node) error {
	return c.layers(got, exp, c.canvas, image.Point{}, image.Point{}, "")
}

// layers compares the layers of a stack. Layers may have been cut at the edges
// of the canvas, and at those of the groups they are in; box is what all of
// these leave. The stack was at the point at of the canvas, and, if it was cut
// itself, is at now.
func (c *comparison) layers(got limage.Image, exp []*hx.Node, box image.Rectangle, abs, now image.Point, path string) error {
	if len(got) != len(exp) {
		return fmt.Errorf("%s has %d layers, not %d", path, len(got), len(exp))
	}

	for i, n := range exp {
		l := got[i]
		p := fmt.Sprintf("%s/%d", path, i)

		switch {
		case l.Name != n.Name:
			return fmt.Errorf("%s: name %q, not %q", p, l.Name, n.Name)
		case l.Invisible != n.Hidden:
			return fmt.Errorf("%s: hidden %v, not %v", p, l.Invisible, n.Hidden)
		case l.Transparency != n.T:
			return fmt.Errorf("%s: transparency %d, not %d", p, l.Transparency, n.T)
		case l.Mode != n.Mode && n.Mode != anyMode:
			return fmt.Errorf("%s: mode %d, not %d", p, l.Mode, n.Mode)
		case l.Image == nil:
			return fmt.Errorf("%s: no image", p)
		}

		px, mask, text, err := leaf(l.Image)
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}

		nw, nh := n.Size()
		at := abs.Add(image.Pt(n.X, n.Y))
		full := image.Rectangle{at, at.Add(image.Pt(nw, nh))}
		most, least := full.Intersect(c.canvas), full.Intersect(box)
		lb := l.LayerBounds.Add(now)

		switch {
		case most.Empty():
			if !lb.Empty() {
				return fmt.Errorf("%s: at %v, though outside of the canvas", p, lb)
			}
		case !least.In(lb) || !lb.In(most):
			return fmt.Errorf("%s: at %v, not %v", p, lb, most)
		}

		if (mask != nil) != (n.Mask != nil) {
			return fmt.Errorf("%s: mask %v, not %v", p, mask != nil, n.Mask != nil)
		}

		if (text != nil) != (n.Text != nil) {
			return fmt.Errorf("%s: text %v, not %v", p, text != nil, n.Text != nil)
		}

		if n.Text != nil {
			if err := sameText(text, n.Text); err != nil {
				return fmt.Errorf("%s: %w", p, err)
			}
		}

		g, ok := px.(limage.Image)

		if ok && !n.Group {
			return fmt.Errorf("%s: a group, not pixels", p)
		} else if !ok && n.Group {
			return fmt.Errorf("%s: not a group but %T", p, px)
		}

		if lb.Empty() { // nothing of it is left
			if ok && len(g) != len(n.Kids) {
				return fmt.Errorf("%s has %d layers, not %d", p, len(g), len(n.Kids))
			}

			continue
		}

		// What can be seen of the layer is read at its own place.
		off := lb.Min.Sub(full.Min)

		if mask != nil {
			for y := 0; y < lb.Dy(); y++ {
				for x := 0; x < lb.Dx(); x++ {
					if g, e := mask.GrayAt(x, y).Y, n.Mask.At(x+off.X, y+off.Y).R; g != e {
						return fmt.Errorf("%s: mask at %d,%d is %d, not %d", p, x, y, g, e)
					}
				}
			}
		}

		if n.Group {
			if err := c.layers(g, n.Kids, least, at, lb.Min, p); err != nil {
				return err
			}

			continue
		}

		if b := px.Bounds(); b.Min != (image.Point{}) || b.Dx() < lb.Dx() || b.Dy() < lb.Dy() || b.Dx() > nw || b.Dy() > nh {
			return fmt.Errorf("%s: image %v, not %v", p, b, lb.Sub(lb.Min))
		}

		w := c.want(n)

		if c.order != nil {
			for _, q := range c.order(lb.Dx(), lb.Dy()) {
				if err := w(q.X+off.X, q.Y+off.Y, px.At(q.X, q.Y)); err != nil {
					return fmt.Errorf("%s: %w", p, err)
				}
			}

			continue
		}

		for y := 0; y < lb.Dy(); y++ {
			for x := 0; x < lb.Dx(); x++ {
				if err := w(x+off.X, y+off.Y, px.At(x, y)); err != nil {
					return fmt.Errorf("%s: %w", p, err)
				}
			}
		}
	}

	return nil
}

// fingerprint identifies everything that can be observed of a decoded stack.
// kinds says whether the types of the images count.
func fingerprint(im limage.Image, kinds bool) string {
	h := crc32.NewIEEE()

	var walk func(im limage.Image, path string)

	walk = func(im limage.Image, path string) {
		for i, l := range im {
			fmt.Fprintf(h, "%s/%d %q %d %v %d;", path, i, l.Name, l.Mode, l.Invisible, l.Transparency)

			if l.LayerBounds.Empty() { // where it is shows nowhere
				continue
			}

			fmt.Fprintf(h, "%v;", l.LayerBounds)

			if kinds {
				fmt.Fprintf(h, "%T;", l.Image)
			}

			px, mask, text, err := leaf(l.Image)
			if err != nil {
				fmt.Fprint(h, err)
			}

			if mask != nil {
				fmt.Fprintf(h, "mask %v", mask.Rect)

				for y := mask.Rect.Min.Y; y < mask.Rect.Max.Y; y++ {
					for x := mask.Rect.Min.X; x < mask.Rect.Max.X; x++ {
						h.Write([]byte{mask.GrayAt(x, y).Y})
					}
				}
			}

			for _, d := range text {
				fmt.Fprintf(h, "%+v", d)
			}

			if g, ok := px.(limage.Image); ok {
				fmt.Fprintf(h, "{")
				walk(g, fmt.Sprintf("%s/%d", path, i))
				fmt.Fprintf(h, "}")

				continue
			}

			if px == nil {
				continue
			}

			b := px.Bounds()
			fmt.Fprintf(h, "%v;", b)
			fmt.Fprintf(h, "%s;", modelName(px.ColorModel()))

			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					r, g, bl, a := px.At(x, y).RGBA()
					h.Write([]byte{byte(r >> 8), byte(r), byte(g >> 8), byte(g), byte(bl >> 8), byte(bl), byte(a >> 8), byte(a)})
				}
			}
		}
	}

	walk(im, "")

	return fmt.Sprintf("%d layers %08x", len(im), h.Sum32())
}

func modelName(m color.Model) string {
	switch p := m.(type) {
	case color.Palette:
		return fmt.Sprintf("palette %v", []color.Color(p))
	case lcolor.AlphaPalette:
		return fmt.Sprintf("palette+alpha %v", []color.Color(p))
	}

	switch m {
	case color.NRGBAModel:
		return "nrgba"
	case lcolor.RGBModel:
		return "rgb"
	case lcolor.GrayAlphaModel:
		return "grayalpha"
	case color.GrayModel:
		return "gray"
	case color.AlphaModel:
		return "alpha"
	}

	return fmt.Sprintf("%T", m)
}

var _ = xcf.Decode
