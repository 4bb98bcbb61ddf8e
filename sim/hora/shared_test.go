//go:build go1.25

package hora

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"io"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() {
	hx.Scenarios["C11"] = hx.Adapter
	hx.Scenarios["C13"] = c13
	hx.Scenarios["C14"] = c14
	hx.Scenarios["C15"] = c15
}

func sum(b []byte) string { return fmt.Sprintf("%d bytes %08x", len(b), crc32.ChecksumIEEE(b)) }

// colour draws a colour of some type with the given opacity.
func colour(r *core.Run, a uint16) color.Color {
	v := func() uint16 {
		switch r.N(3) {
		case 1:
			return 0xffff
		case 2:
			return uint16(r.N(0x10000))
		}

		return 0
	}

	c := color.NRGBA64{v(), v(), v(), a}
	b8 := func(x uint16) uint8 { return uint8(x >> 8) }

	switch r.N(6) {
	case 1:
		if a%0x101 == 0 {
			return color.NRGBA{b8(c.R), b8(c.G), b8(c.B), uint8(a >> 8)}
		}
	case 2:
		return color.RGBA64Model.Convert(c)
	case 3:
		if a == 0xffff {
			return lcolor.RGB{R: b8(c.R), G: b8(c.G), B: b8(c.B)}
		}
	case 4:
		if a == 0xffff {
			return color.Gray16{Y: c.R}
		}
	}

	return c
}

func opacity(r *core.Run) uint16 {
	switch r.N(8) {
	case 0:
		return 0x8080
	case 1:
		return 0
	case 2:
		return 0xffff
	case 3:
		return []uint16{1, 2, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xff00, 0xfefe, 0xfffe}[r.N(11)]
	case 4:
		return uint16(r.N(256)) * 0x101
	}

	return uint16(r.N(0x10000))
}

// uniformImage is one colour everywhere.
type uniformImage struct {
	c color.Color
	b image.Rectangle
}

func (u uniformImage) ColorModel() color.Model { return color.NRGBA64Model }
func (u uniformImage) Bounds() image.Rectangle { return u.b }
func (u uniformImage) At(int, int) color.Color { return u.c }

// Bernstein's bound on the deviation of a count, for a chance of e^-L.
func bound(k, p float64) float64 {
	const l = 27

	return 1 + l/3.0 + math.Sqrt(l*l/9.0+2*k*p*(1-p)*l)
}

func c13(r *core.Run) {
	var (
		draw         func() color.Color
		lower, upper color.NRGBA64
		p            float64 // odds of the upper pixel
		slack        float64
		what         string
	)

	if r.N(32) == 31 {
		c13Sequence(r)

		return
	}

	a := opacity(r)
	b, t := colour(r, opacity(r)), colour(r, a)
	lower, upper = nrgba(b), nrgba(t)
	never, always := upper.A == 0, upper.A == 0xffff
	p = float64(upper.A) / 0xffff
	upper.A = 0xffff
	kind := r.N(5)

	switch kind {
	case 0, 1, 2:
		what = "direct"
		draw = func() color.Color { return limage.CompositeDissolve.Composite(b, t) }
	default:
		// Through a stack, where the layer's own opacity counts as well.
		what = "stack"
		rect := image.Rect(0, 0, 3, 2)
		tr := uint8(0)

		switch r.N(4) {
		case 1:
			tr = uint8(r.N(256))
		case 2:
			tr = []uint8{1, 127, 128, 254, 255}[r.N(5)]
		}

		p *= float64(255-tr) / 255
		slack = 2.0 / 0xffff
		never = never || tr == 255
		always = always && tr == 0
		below := limage.Layer{Image: uniformImage{b, rect}, LayerBounds: rect}
		top := limage.Layer{Image: uniformImage{t, rect}, LayerBounds: rect, Mode: limage.CompositeDissolve, Transparency: tr}

		if r.N(3) == 2 {
			top.LayerBounds = rect.Add(image.Pt(1, 1))
		}

		stack := limage.Image{top, below}
		alone := limage.Image{below}

		if r.N(3) == 2 { // inside a group
			what = "group"
			stack = limage.Image{{Image: stack, LayerBounds: stack.Bounds()}}
		}

		lower = nrgba(alone.At(1, 1))

		if !(what == "group") {
			r.Probe("through-stack")
		}

		draw = func() color.Color { return stack.At(1, 1) }

		if what == "group" {
			// Blending the group over nothing keeps the colour.
			r.Probe("through-group")
		}
	}

	same := lower == upper

	r.Event("%s %v over %v, opacity %.6f", what, t, b, p)

	mode := r.F(3)
	k := 64

	switch mode {
	case 0:
		r.RandMode = core.RandExtremes
	default:
		r.Reseed(r.Tape.Draw(core.Gen, 1<<40))

		k = 20000
		if kind == 0 && r.N(4) == 3 {
			k = 200000
		}
	}

	// With several threads reading, the odds are still theirs.
	threads := 1
	if r.N(4) == 3 {
		threads = 2 + r.N(2)
		k = min(k, 3000)
	}

	got := make([][]bool, threads)

	one := func(n int) {
		for i := 0; i < k; i++ {
			c := nrgba(draw())
			isLow := c == lower || (c.A == 0 && lower.A == 0)
			isUp := c == upper

			switch {
			case !isLow && !isUp:
				r.Violate("neither-layer", "dissolving %v over %v gave %v (%s)", t, b, c, what)
			case never && !isLow:
				r.Violate("transparent-shows", "dissolving the transparent %v over %v gave %v (%s)", t, b, c, what)
			case always && !isUp:
				r.Violate("opaque-hidden", "dissolving the opaque %v over %v gave %v (%s)", t, b, c, what)
			}

			if r.Done() {
				return
			}

			got[n] = append(got[n], isUp)
		}
	}

	fns := make([]func(), threads)
	for n := range fns {
		fns[n] = func() { r.Call("dissolve", func() { one(n) }) }
	}

	before := r.RandDraws

	r.Concurrent(fns...)

	if r.Done() || same || never || always {
		return
	}

	ups, total := 0, 0

	for _, g := range got {
		for _, up := range g {
			total++

			if up {
				ups++
			}
		}
	}

	r.Event("%d of %d show the upper pixel", ups, total)

	if mode == 0 { // which mean nothing to a source the code has of its own
		if r.RandDraws-before >= total && p > 3.0/0xffff && p < 1-3.0/0xffff && (ups == 0 || ups == total) {
			r.Violate("one-sided", "with the random numbers at their extremes %d of %d show the upper pixel, opacity %.6f (%s)", ups, total, p, what)
		}

		return
	}

	if d := math.Abs(float64(ups) - float64(total)*p); d > bound(float64(total), p)+float64(total)*slack {
		r.Violate("wrong-odds", "%d of %d show the upper pixel, opacity %.6f (%s)", ups, total, p, what)

		return
	}

	// Neighbouring draws are independent: how often two differ.
	for _, g := range got {
		for par := 0; par < 2; par++ {
			diff, n := 0, 0

			for i := par; i+1 < len(g); i += 2 {
				n++

				if g[i] != g[i+1] {
					diff++
				}
			}

			q := 2 * p * (1 - p)
			if d := math.Abs(float64(diff) - float64(n)*q); d > bound(float64(n), q)+float64(n)*2*slack {
				r.Violate("not-independent", "%d of %d neighbouring draws differ, opacity %.6f (%s)", diff, n, p, what)

				return
			}
		}
	}
}

// c13Sequence draws with opacities that take turns, and looks at how often
// two draws show the upper pixel, up to some draws apart.
func c13Sequence(r *core.Run) {
	one := func() uint16 {
		switch r.N(3) {
		case 0: // decided by the upper bits of a number of 16 bits, or all but
			return uint16(1) << r.N(16)
		case 1:
			return []uint16{0x101, 0x1001, 0x8001, 0xff00, 0xfffe, 0xc000, 0x5555, 0xaaaa, 0x0ff0}[r.N(9)]
		}

		return max(opacity(r), 1)
	}
	a := []uint16{one(), one()}

	if r.N(3) == 0 {
		a = append(a, one())
	}

	r.Probe("sequences")
	r.Event("opacities in turn: %x", a)
	r.Reseed(r.Tape.Draw(core.Gen, 1<<40))

	const k = 400000

	lower := color.NRGBA64{G: 0xffff, A: 0xffff}
	got := make([]bool, 0, k)

	r.Call("dissolve", func() {
		for i := range k {
			c := limage.CompositeDissolve.Composite(lower, color.NRGBA64{R: 0xffff, A: a[i%len(a)]})
			red, _, _, _ := c.RGBA()
			got = append(got, red == 0xffff)
		}
	})

	if r.Done() {
		return
	}

	for lag := 1; lag <= 6; lag++ {
		for first := range a {
			n, both := 0, 0

			for i := first; i+lag < k; i += len(a) {
				if i/lag%2 == 1 { // no draw is in more than one pair
					continue
				}

				n++

				if got[i] && got[i+lag] {
					both++
				}
			}

			p := func(i int) (float64, float64) {
				const slack = 1.5 / 0xffff

				o := float64(a[i%len(a)]) / 0xffff

				return max(o-slack, 0), min(o+slack, 1)
			}
			l1, h1 := p(first)
			l2, h2 := p(first + lag)

			if !plausible(n, both, l1*l2, h1*h2) {
				r.Violate("not-independent", "with opacities %x in turn, %d of %d pairs of draws %d apart show the upper pixel twice, not %.8f to %.8f of them", a, both, n, lag, l1*l2, h1*h2)

				return
			}
		}
	}
}

// plausible says whether k of n with odds between lo and hi happens at all:
// it is false for what happens less than once in 1e17 (Chernoff's bound).
func plausible(n, k int, lo, hi float64) bool {
	x := float64(k) / float64(n)
	q := min(max(x, lo), hi)

	if x == q {
		return true
	} else if q <= 0 || q >= 1 {
		return false
	}

	var kl float64

	if x > 0 {
		kl += x * math.Log(x/q)
	}

	if x < 1 {
		kl += (1 - x) * math.Log((1-x)/(1-q))
	}

	return float64(n)*kl < 40
}

func pixels(im image.Image) string {
	h := crc32.NewIEEE()
	b := im.Bounds()

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			fmt.Fprintf(h, "%v ", im.At(x, y))
		}
	}

	return fmt.Sprintf("%v %08x", b, h.Sum32())
}

func encodeOp(r *core.Run, im image.Image) func() string {
	return func() string {
		var buf bytes.Buffer

		err := ora.Encode(pointWriter{r, &buf}, im)

		return fmt.Sprintf("%s %v", sum(buf.Bytes()), err)
	}
}

type pointWriter struct {
	r *core.Run
	w io.Writer
}

func (p pointWriter) Write(b []byte) (int, error) {
	p.r.Point("write")

	return p.w.Write(b)
}

func decodeOp(r *core.Run, open func() (*zip.Reader, error)) func() string {
	return func() string {
		zr, err := open()
		if err != nil {
			return err.Error()
		}

		im, err := ora.Decode(zr)
		if err != nil {
			return err.Error()
		}

		return fingerprint(im)
	}
}

func configOp(r *core.Run, open func() (*zip.Reader, error)) func() string {
	return func() string {
		zr, err := open()
		if err != nil {
			return err.Error()
		}

		c, err := ora.DecodeConfig(zr)

		return fmt.Sprintf("%dx%d %v", c.Width, c.Height, err)
	}
}

func c14(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2})
	q, data := genFile(r, genOpts{maxTop: 3, depth: 1})

	if r.Done() {
		return
	}

	r.Event("picture %s; file of %s", p.desc, q.desc)

	disk := hx.NewReaderAt(r, data, hx.ReadPlan{})

	zr, err := zip.NewReader(disk, int64(len(data)))
	if err != nil {
		r.Broken = err.Error()

		return
	}

	shared := func() (*zip.Reader, error) { return zr, nil }
	own := func() (*zip.Reader, error) { return zip.NewReader(disk, int64(len(data))) }

	ops := []hx.Op{
		{Name: "encode", Do: encodeOp(r, p.im)},
		{Name: "encode again", Do: encodeOp(r, p.im)},
		{Name: "decode", Do: decodeOp(r, own)},
		{Name: "decode shared archive", Do: decodeOp(r, shared)},
		{Name: "dimensions", Do: configOp(r, shared)},
		{Name: "pixels", Do: func() string { return pixels(p.im) }},
		{Name: "sub-image", Do: func() string {
			si, ok := p.im.(interface {
				SubImage(image.Rectangle) image.Image
			})
			if !ok {
				return ""
			}

			b := p.im.Bounds()
			b.Max = b.Max.Sub(image.Pt(b.Dx()/3, b.Dy()/3))

			return pixels(si.SubImage(b))
		}},
		{Name: "encode another", Do: encodeOp(r, hx.Layers(q.nodes))},
	}

	hx.Together(r, ops, func() string {
		return hx.Snapshot(p.im) + hx.Snapshot(hx.Layers(q.nodes)) + sum(disk.Data)
	})
}

func c15(r *core.Run) {
	p := genPicture(r, genOpts{maxTop: 3, depth: 2, roots: true})
	q, data := genFile(r, genOpts{maxTop: 3, depth: 1})

	if r.Done() {
		return
	}

	r.Event("picture %s; file of %s", p.desc, q.desc)

	open := func() (*zip.Reader, error) {
		return zip.NewReader(bytes.NewReader(data), int64(len(data)))
	}

	targets := []hx.Op{
		{Name: "encode", Do: encodeOp(r, p.im)},
		{Name: "decode", Do: decodeOp(r, open)},
		{Name: "dimensions", Do: configOp(r, open)},
		{Name: "pixels", Do: func() string { return pixels(p.im) }},
	}

	other := func() picture { return genPicture(r, genOpts{maxTop: 2, depth: 1}) }

	disturb := []hx.Op{
		{Name: "encode another", Do: func() string { return encodeOp(r, other().im)() }},
		{Name: "encode with a write fault", Do: func() string {
			o := p
			if r.F(2) == 0 {
				o = other()
			}

			dry := hx.NewWriter(r, hx.WritePlan{})
			ora.Encode(dry, o.im)

			w := hx.NewWriter(r, hx.DrawWritePlan(r, dry.Ops, dry.Bytes, true))

			return fmt.Sprint(ora.Encode(w, o.im))
		}},
		{Name: "encode an image that panics", Do: func() string {
			w, h := hx.GenSize(r, false)
			px := hx.GenPixels(r, w, h, hx.KNRGBA, nil)
			im := append(limage.Image{}, hx.Layers(q.nodes)...)
			im = append(im, limage.Layer{Name: "stop", Image: hx.Stopping(px, 1+r.F(3*w*h)), LayerBounds: image.Rect(0, 0, w, h)})

			var b bytes.Buffer

			return fmt.Sprint(ora.Encode(&b, im))
		}},
		{Name: "decode with a read fault", Do: func() string {
			d := hx.NewReaderAt(r, data, hx.DrawReadPlanFrom(r, openOps(r, data), 3*openOps(r, data)+10, int64(len(data))))

			return decodeOp(r, func() (*zip.Reader, error) { return zip.NewReader(d, int64(len(data))) })()
		}},
		{Name: "decode a damaged file", Do: func() string {
			b := damage(r, data, nil)

			return decodeOp(r, func() (*zip.Reader, error) { return zip.NewReader(bytes.NewReader(b), int64(len(b))) })()
		}},
		{Name: "decode another", Do: func() string {
			var b bytes.Buffer

			ora.Encode(&b, other().im)

			return decodeOp(r, func() (*zip.Reader, error) { return zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len())) })()
		}},
		{Name: "decode from a file that panics", Do: func() string {
			d := &stoppingReader{data: data, at: openOps(r, data) + r.F(12)}

			return decodeOp(r, func() (*zip.Reader, error) { return zip.NewReader(d, int64(len(data))) })()
		}},
		{Name: "dimensions of a damaged file", Do: func() string {
			b := damage(r, data, nil)

			return configOp(r, func() (*zip.Reader, error) { return zip.NewReader(bytes.NewReader(b), int64(len(b))) })()
		}},
	}

	hx.Again(r, targets, disturb)
}

type stoppingReader struct {
	data []byte
	at   int
	n    int
}

func (s *stoppingReader) ReadAt(p []byte, off int64) (int, error) {
	s.n++

	if s.n > s.at {
		panic(&hx.Stopped{Where: fmt.Sprintf("read %d", s.n)})
	}

	return bytes.NewReader(s.data).ReadAt(p, off)
}
