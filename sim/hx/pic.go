//go:build go1.25

package hx

import (
	"fmt"
	"image"
	"image/color"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/core"
)

// PRNG expands one choice of the tape into bulk content.
type PRNG uint64

// Next returns the next number below n.
func (p *PRNG) Next(n int) int {
	*p = PRNG(core.Mix(uint64(*p), 1))

	return int(uint64(*p) >> 11 % uint64(n))
}

// Kinds of pixel sources.
const (
	KNRGBA = iota
	KOpaque
	KGray
	KRGB
	KGrayAlpha
	KPaletted
	KPalettedAlpha
	KRGBA
	KNRGBA64
	KGray16
	KAlpha
	KCustom
	KYCbCr
	KPalTrans // indexed, with colours that are not opaque
	nKinds
)

var kindNames = [...]string{"nrgba", "opaque", "gray", "rgb", "grayalpha", "paletted", "palettedalpha", "rgba", "nrgba64", "gray16", "alpha", "custom", "ycbcr", "paltrans"}

// Pixels holds plain pixels, independent of the code under test. The values
// are those an 8 bit image of the given kind can hold.
type Pixels struct {
	W, H int
	Kind int
	P    []color.NRGBA
	Idx  []uint8 // for indexed kinds
	Pal  []lcolor.RGB

	// Margin is how much wider and higher the image is that the image of these
	// pixels is a part of.
	Margin int
}

// At returns a pixel.
func (p *Pixels) At(x, y int) color.NRGBA { return p.P[y*p.W+x] }

// Custom is an image type of the caller's, known to nobody.
type Custom struct {
	P   *Pixels
	Min image.Point
	// OnAt is called on every access.
	OnAt func(x, y int)
}

// ColorModel implements image.Image.
func (Custom) ColorModel() color.Model { return color.NRGBAModel }

// Bounds implements image.Image.
func (c Custom) Bounds() image.Rectangle { return image.Rect(0, 0, c.P.W, c.P.H).Add(c.Min) }

// At implements image.Image.
func (c Custom) At(x, y int) color.Color {
	if c.OnAt != nil {
		c.OnAt(x, y)
	}

	if !(image.Point{X: x, Y: y}).In(c.Bounds()) {
		return color.NRGBA{}
	}

	return c.P.At(x-c.Min.X, y-c.Min.Y)
}

// moved is the image with its pixels elsewhere.
func moved(im image.Image, by image.Point) image.Image {
	if by == (image.Point{}) {
		return im
	}

	switch im := im.(type) {
	case *image.NRGBA:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.RGBA:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.NRGBA64:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.Gray:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.Gray16:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.Alpha:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.Paletted:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *image.YCbCr:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *limage.RGB:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *limage.GrayAlpha:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case *limage.PalettedAlpha:
		m := *im
		m.Rect = m.Rect.Add(by)

		return &m
	case Custom:
		im.Min = im.Min.Add(by)

		return im
	}

	panic(fmt.Sprintf("can not move a %T", im))
}

// GenPixels makes content. Styles vary run lengths, which is what run-length
// coding depends on.
func GenPixels(r *core.Run, w, h, kind int, pal []lcolor.RGB) *Pixels {
	p := &Pixels{W: w, H: h, Kind: kind, P: make([]color.NRGBA, w*h), Pal: pal}
	style := r.N(6)

	if r.N(8) == 7 {
		p.Margin = 1 + r.N(9)
	}

	rng := PRNG(r.Tape.Draw(core.Gen, 1<<32))

	var cur [4]uint8

	if Indexed(kind) {
		p.Idx = make([]uint8, w*h)
	}

	idx := uint8(0)
	left := 0

	random := func() [4]uint8 {
		var c [4]uint8
		for i := range c {
			switch rng.Next(4) {
			case 0:
				c[i] = 0
			case 1:
				c[i] = 255
			default:
				c[i] = uint8(rng.Next(256))
			}
		}

		return c
	}

	cur = random()

	if len(pal) > 0 {
		idx = uint8(rng.Next(len(pal)))
	}

	for i := range p.P {
		x, y := i%w, i/w

		switch style {
		case 0: // one colour
		case 1: // gradient
			cur = [4]uint8{uint8(x * 255 / max(w-1, 1)), uint8(y * 255 / max(h-1, 1)), uint8((x + y) * 7), 255}

			if len(pal) > 0 {
				idx = uint8((x + y) % len(pal))
			}
		case 2: // noise
			cur = random()

			if len(pal) > 0 {
				idx = uint8(rng.Next(len(pal)))
			}
		case 3, 4: // runs, the lengths around the limits of the coding
			if left == 0 {
				cur = random()

				if len(pal) > 0 {
					idx = uint8(rng.Next(len(pal)))
				}

				if style == 3 {
					left = 1 + rng.Next(9)
				} else {
					left = []int{1, 2, 3, 4, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 500}[rng.Next(16)]
				}
			}

			left--
		case 5: // alternating
			if x&1 == 0 {
				cur = [4]uint8{255, 0, uint8(y), 255}
			} else {
				cur = [4]uint8{0, uint8(x), 255, uint8(y*3 + 1)}
			}

			if len(pal) > 0 {
				idx = uint8(i % len(pal))
			}
		}

		c := color.NRGBA{R: cur[0], G: cur[1], B: cur[2], A: cur[3]}

		switch kind {
		case KOpaque, KRGB, KYCbCr:
			c.A = 255
		case KGray, KGray16:
			c = color.NRGBA{c.R, c.R, c.R, 255}
		case KGrayAlpha:
			c = color.NRGBA{c.R, c.R, c.R, c.A}
		case KPaletted:
			q := pal[idx]
			c = color.NRGBA{q.R, q.G, q.B, 255}
			p.Idx[i] = idx
		case KPalTrans:
			q := pal[idx]
			c = color.NRGBA{q.R, q.G, q.B, transAlpha(int(idx))}
			p.Idx[i] = idx
		case KPalettedAlpha:
			q := pal[idx]
			c = color.NRGBA{q.R, q.G, q.B, c.A}
			p.Idx[i] = idx
		case KAlpha:
			c = color.NRGBA{255, 255, 255, c.A}
		}

		p.P[i] = c
	}

	return p
}

// Indexed says whether images of the kind have a palette.
func Indexed(kind int) bool {
	return kind == KPaletted || kind == KPalettedAlpha || kind == KPalTrans
}

// transAlpha is the alpha of the colours of a KPalTrans palette.
func transAlpha(i int) uint8 { return []uint8{255, 0, 128, 1, 254, 77}[i%6] }

// Palette makes a palette of distinct colours.
func Palette(r *core.Run) []lcolor.RGB {
	n := []int{2, 1, 3, 5, 16, 17, 255, 256}[r.N(8)]
	rng := PRNG(r.Tape.Draw(core.Gen, 1<<32))
	seen := make(map[lcolor.RGB]bool)
	pal := make([]lcolor.RGB, 0, n)

	for len(pal) < n {
		c := lcolor.RGB{R: uint8(rng.Next(256)), G: uint8(rng.Next(256)), B: uint8(rng.Next(256))}
		if !seen[c] {
			seen[c] = true
			pal = append(pal, c)
		}
	}

	return pal
}

// ColorPalette converts.
func ColorPalette(pal []lcolor.RGB) color.Palette {
	cp := make(color.Palette, len(pal))
	for i, c := range pal {
		cp[i] = c
	}

	return cp
}

// Image builds the image of the kind holding the pixels.
func (p *Pixels) Image() image.Image {
	if p.Margin == 0 {
		return p.image()
	}

	q := *p
	q.W, q.H = p.W+p.Margin, p.H+p.Margin
	q.P = make([]color.NRGBA, q.W*q.H)

	if Indexed(p.Kind) {
		q.Idx = make([]uint8, q.W*q.H)
	}

	for i := range q.P {
		x, y := i%q.W, i/q.W
		in := x < p.W && y < p.H
		c := p.P[y%p.H*p.W+x%p.W]

		if !in { // not to be seen
			c = color.NRGBA{^c.R, ^c.G, ^c.B, c.A ^ 0x55}
		}

		q.P[i] = c

		if q.Idx != nil {
			q.Idx[i] = p.Idx[y%p.H*p.W+x%p.W]

			if !in {
				q.Idx[i] = uint8((int(q.Idx[i]) + 1) % len(p.Pal))
			}
		}
	}

	im := q.image()

	if s, ok := im.(interface {
		SubImage(r image.Rectangle) image.Image
	}); ok {
		return s.SubImage(image.Rect(0, 0, p.W, p.H))
	}

	return p.image()
}

func (p *Pixels) image() image.Image {
	b := image.Rect(0, 0, p.W, p.H)

	set := func(im interface {
		image.Image
		Set(x, y int, c color.Color)
	}) image.Image {
		for i, c := range p.P {
			im.Set(i%p.W, i/p.W, c)
		}

		return im
	}

	switch p.Kind {
	case KGray:
		im := image.NewGray(b)
		for i, c := range p.P {
			im.Pix[i] = c.R
		}

		return im
	case KRGB:
		im := &limage.RGB{Pix: make([]lcolor.RGB, len(p.P)), Stride: p.W, Rect: b}
		for i, c := range p.P {
			im.Pix[i] = lcolor.RGB{R: c.R, G: c.G, B: c.B}
		}

		return im
	case KGrayAlpha:
		im := &limage.GrayAlpha{Pix: make([]lcolor.GrayAlpha, len(p.P)), Stride: p.W, Rect: b}
		for i, c := range p.P {
			im.Pix[i] = lcolor.GrayAlpha{Y: c.R, A: c.A}
		}

		return im
	case KPaletted:
		im := image.NewPaletted(b, ColorPalette(p.Pal))
		copy(im.Pix, p.Idx)

		return im
	case KPalTrans:
		cp := make(color.Palette, len(p.Pal))
		for i, c := range p.Pal {
			cp[i] = color.NRGBA{c.R, c.G, c.B, transAlpha(i)}
		}

		im := image.NewPaletted(b, cp)
		copy(im.Pix, p.Idx)

		return im
	case KPalettedAlpha:
		im := &limage.PalettedAlpha{Pix: make([]lcolor.IndexedAlpha, len(p.P)), Stride: p.W, Rect: b, Palette: lcolor.AlphaPalette(ColorPalette(p.Pal))}
		for i, c := range p.P {
			im.Pix[i] = lcolor.IndexedAlpha{I: p.Idx[i], A: c.A}
		}

		return im
	case KRGBA:
		return set(image.NewRGBA(b))
	case KNRGBA64:
		return set(image.NewNRGBA64(b))
	case KGray16:
		return set(image.NewGray16(b))
	case KAlpha:
		return set(image.NewAlpha(b))
	case KCustom:
		return Custom{P: p}
	case KYCbCr:
		im := image.NewYCbCr(b, image.YCbCrSubsampleRatio444)
		for i, c := range p.P {
			im.Y[i], im.Cb[i], im.Cr[i] = color.RGBToYCbCr(c.R, c.G, c.B)
		}

		return im
	}

	im := image.NewNRGBA(b)
	for i, c := range p.P {
		im.SetNRGBA(i%p.W, i/p.W, c)
	}

	return im
}

// Node is a layer of a model picture.
type Node struct {
	Name   string
	X, Y   int // relative to the parent
	T      uint8
	Hidden bool
	Mode   limage.Composite
	Group  bool
	Kids   []*Node
	Pix    *Pixels
	Img    image.Image
	Mask   *Pixels
	Text   limage.TextData
	Form   int // which of the equivalent values to build: see Content

	// Off is where the image starts that Content builds. Those of layers start
	// at the origin.
	Off image.Point
}

// Content builds what goes into the layer. Bits of Form select pointers to
// values where the library accepts both.
func (n *Node) Content() image.Image {
	var im image.Image

	if n.Group {
		g := Layers(n.Kids)
		im = g

		if n.Form&1 != 0 {
			im = &g
		}
	} else {
		im = moved(n.Img, n.Off)
	}

	if n.Text != nil {
		t := limage.Text{Image: im, TextData: n.Text}
		im = t

		if n.Form&2 != 0 {
			im = &t
		}
	}

	if n.Mask != nil {
		m := limage.MaskedImage{Image: im, Mask: moved(n.Mask.Image(), n.Off).(*image.Gray)}
		im = m

		if n.Form&4 != 0 {
			im = &m
		}
	}

	return im
}

// Size of what the layer holds, from its origin.
func (n *Node) Size() (int, int) {
	if !n.Group {
		return n.Pix.W, n.Pix.H
	}

	var w, h int

	for _, k := range n.Kids {
		kw, kh := k.Size()
		if kw > 0 && kh > 0 && k.X+kw > 0 && k.Y+kh > 0 { // else hidden
			w, h = max(w, k.X+kw), max(h, k.Y+kh)
		}
	}

	return w, h
}

// Reach is how far the layer may be said to extend from its origin: that of a
// group includes layers of which nothing can be seen.
func (n *Node) Reach() (int, int) {
	if !n.Group {
		return n.Pix.W, n.Pix.H
	}

	var w, h int

	for _, k := range n.Kids {
		kw, kh := k.Reach()
		w, h = max(w, k.X+kw), max(h, k.Y+kh)
	}

	return w, h
}

// Layers builds the library's representation.
func Layers(nodes []*Node) limage.Image {
	im := make(limage.Image, len(nodes))

	for i, n := range nodes {
		w, h := n.Size()
		l := limage.Layer{
			Name:         n.Name,
			LayerBounds:  image.Rect(n.X, n.Y, n.X+w, n.Y+h),
			Mode:         n.Mode,
			Invisible:    n.Hidden,
			Transparency: n.T,
		}

		l.Image = n.Content()
		im[i] = l
	}

	return im
}

// Canvas is the rectangle the top-level layers span.
func Canvas(nodes []*Node) image.Rectangle {
	var b image.Rectangle

	for _, n := range nodes {
		w, h := n.Size()
		b = b.Union(image.Rect(n.X, n.Y, n.X+w, n.Y+h))
	}

	return b
}

// Count is the number of layers of any kind.
func Count(nodes []*Node) int {
	c := 0
	for _, n := range nodes {
		c += 1 + Count(n.Kids)
	}

	return c
}

// Leaves is the number of layers with pixels.
func Leaves(nodes []*Node) int {
	c := 0

	for _, n := range nodes {
		if n.Group {
			c += Leaves(n.Kids)
		} else {
			c++
		}
	}

	return c
}

// Describe renders a model picture.
func Describe(nodes []*Node) string {
	var sb strings.Builder

	for i, n := range nodes {
		if i > 0 {
			sb.WriteString(", ")
		}

		fmt.Fprintf(&sb, "%q@%d,%d", n.Name, n.X, n.Y)

		if n.T != 0 {
			fmt.Fprintf(&sb, " t%d", n.T)
		}

		if n.Hidden {
			sb.WriteString(" hidden")
		}

		if n.Mode != 0 {
			fmt.Fprintf(&sb, " mode%d", n.Mode)
		}

		if n.Group {
			fmt.Fprintf(&sb, " {%s}", Describe(n.Kids))
		} else {
			fmt.Fprintf(&sb, " %s %dx%d", kindNames[n.Pix.Kind], n.Pix.W, n.Pix.H)
		}

		if n.Mask != nil {
			sb.WriteString(" mask")
		}

		if n.Text != nil {
			fmt.Fprintf(&sb, " text%d", len(n.Text))
		}
	}

	return sb.String()
}

// Names used for layers.
var names = []string{"", "Layer", "Background", "a&b<c>\"d'", "ünï→码", "  two  ", "tab\tnl\n.", "x", strings.Repeat("long", 80)}

// GenName draws a name.
func GenName(r *core.Run) string {
	if r.N(150) == 149 {
		return strings.Repeat("endless", []int{400, 600, 9400}[r.N(3)])
	}

	return names[r.N(len(names))]
}

// GenSize draws the size of a layer, biased to tile and coding boundaries.
func GenSize(r *core.Run, big bool) (int, int) {
	one := func() int {
		switch r.N(8) {
		case 0, 1, 2, 3:
			return 1 + r.N(8)
		case 4, 5:
			return 1 + r.N(24)
		case 6:
			return []int{16, 31, 32, 33, 48}[r.N(5)]
		default:
			if !big {
				return 1 + r.N(12)
			}

			return []int{63, 64, 65, 127, 128, 129, 130, 200}[r.N(8)]
		}
	}

	if big && r.N(40) == 39 { // many tiles, the other way few
		w, h := []int{255, 256, 257, 320, 700}[r.N(5)], 1+r.N(3)
		if r.N(2) == 1 {
			return h, w
		}

		return w, h
	}

	return one(), one()
}

// Lots draws a number of layers, at times more than a byte can count.
func Lots(r *core.Run, least, span int) int {
	if r.N(6) == 5 {
		return 250 + r.N(60)
	}

	return least + r.N(span)
}

// GenMany makes a stack of many small layers.
func GenMany(r *core.Run, n int, modes []limage.Composite) []*Node {
	nodes := make([]*Node, n)

	for i := range nodes {
		nodes[i] = small(r, modes)
		nodes[i].Name = fmt.Sprint("n", i)

		if r.N(5) == 4 {
			nodes[i].Group, nodes[i].Pix, nodes[i].Img = true, nil, nil

			for range 1 + r.N(2) {
				nodes[i].Kids = append(nodes[i].Kids, small(r, modes))
			}
		}
	}

	return nodes
}

// GenDeep makes groups in groups.
func GenDeep(r *core.Run, n int, modes []limage.Composite) []*Node {
	nodes := []*Node{small(r, modes)}

	for i := 0; i < n; i++ {
		g := &Node{Name: fmt.Sprint("g", i), Group: true, Kids: nodes, X: r.N(3), Y: r.N(2), Hidden: r.N(8) == 7}
		nodes = []*Node{g}

		switch r.N(5) {
		case 3:
			nodes = []*Node{small(r, modes), g}
		case 4:
			nodes = []*Node{g, small(r, modes)}
		}
	}

	return nodes
}

func small(r *core.Run, modes []limage.Composite) *Node {
	n := &Node{Name: "s", X: r.N(6), Y: r.N(6), Hidden: r.N(8) == 7, Mode: modes[r.N(len(modes))]}

	if r.N(3) == 2 {
		n.T = uint8(r.N(256))
	}

	n.Pix = GenPixels(r, 1+r.N(3), 1+r.N(2), KNRGBA, nil)
	n.Img = n.Pix.Image()

	return n
}

// Flat is the colour, with straight alpha, that a stack of layers shows at a
// point, where that follows from what covers what: known is false where layers
// blend in other ways than by covering.
func Flat(nodes []*Node, x, y int) (c [4]float64, known bool) {
	// The layers of an indexed picture show or do not.
	firm := false
	if f := firstLeaf(nodes); f != nil {
		firm = f.Pix.Kind == KPaletted || f.Pix.Kind == KPalTrans
	}

	rest := 1.0 // of what is further down shows

	for _, n := range nodes { // from the top
		w, h := n.Size()
		px, py := x-n.X, y-n.Y

		if n.Hidden || !(image.Pt(px, py).In(image.Rect(0, 0, w, h))) {
			continue
		}

		if n.Mode != limage.CompositeNormal {
			return c, false
		}

		if n.T == 255 {
			continue
		}

		var l [4]float64

		if n.Group {
			if l, known = Flat(n.Kids, px, py); !known {
				return c, false
			}
		} else {
			l = n.colour(px, py)
		}

		a := l[3] * float64(255-n.T) / 255

		if n.Mask != nil {
			a *= float64(n.Mask.At(px, py).R) / 255
		}

		if firm && a > 0 && a < 1 {
			return c, false
		}

		for i := range l[:3] {
			c[i] += rest * a * l[i]
		}

		c[3] += rest * a
		rest *= 1 - a

		if rest == 0 {
			break
		}
	}

	if c[3] > 0 {
		for i := range c[:3] {
			c[i] /= c[3]
		}
	}

	return c, true
}

func firstLeaf(nodes []*Node) *Node {
	for len(nodes) > 0 && nodes[0].Group {
		nodes = nodes[0].Kids
	}

	if len(nodes) == 0 {
		return nil
	}

	return nodes[0]
}

// colour is the colour of a pixel with straight alpha.
func (n *Node) colour(x, y int) [4]float64 {
	c := color.Color(n.Pix.At(x, y))

	switch n.Pix.Kind {
	case KRGBA, KNRGBA64, KYCbCr, KGray16: // other than 8 bit straight colours
		c = n.Img.At(x, y)
	}

	switch c := c.(type) {
	case color.NRGBA:
		return [4]float64{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255, float64(c.A) / 255}
	case color.NRGBA64:
		return [4]float64{float64(c.R) / 65535, float64(c.G) / 65535, float64(c.B) / 65535, float64(c.A) / 65535}
	}

	r, g, b, a := c.RGBA()
	if a == 0 {
		return [4]float64{}
	}

	return [4]float64{float64(r) / float64(a), float64(g) / float64(a), float64(b) / float64(a), float64(a) / 65535}
}

// Snapshot renders everything an operation might change in a picture.
func Snapshot(im image.Image) string {
	var sb strings.Builder

	var walk func(im image.Image)

	walk = func(im image.Image) {
		switch g := im.(type) {
		case limage.Image:
			for _, l := range g {
				fmt.Fprintf(&sb, "[%q %v %d %v %d %T", l.Name, l.LayerBounds, l.Mode, l.Invisible, l.Transparency, l.Image)
				walk(l.Image)
				sb.WriteString("]\n")
			}
		case *limage.Image:
			walk(*g)
		case limage.Layer:
			walk(limage.Image{g})
		case *limage.Layer:
			walk(limage.Image{*g})
		case limage.MaskedImage:
			fmt.Fprintf(&sb, "%v", g.Mask)
			walk(g.Image)
		case *limage.MaskedImage:
			walk(*g)
		case limage.Text:
			fmt.Fprintf(&sb, "%v", g.TextData)
			walk(g.Image)
		case *limage.Text:
			walk(*g)
		case Custom:
			fmt.Fprintf(&sb, "%v", g.P.P)
		default:
			fmt.Fprintf(&sb, "%v", g)
		}
	}

	walk(im)

	return sb.String()
}

// NoPalette is the palette of images that have none.
var NoPalette []lcolor.RGB
