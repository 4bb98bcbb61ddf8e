//go:build go1.25

package hora

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

var modes = func() []limage.Composite {
	var m []limage.Composite

	for c := limage.CompositeNormal; c <= limage.CompositePassThrough; c++ {
		if _, ok := hx.OpNames[c]; ok {
			m = append(m, c)
		}
	}

	return m
}()

// picture is a model picture and the value that is handed to the encoder.
type picture struct {
	im    image.Image
	nodes []*hx.Node // with the canvas at the origin
	w, h  int
	plain bool // just an image
	desc  string
}

type genOpts struct {
	kinds  []int
	maxTop int
	depth  int
	big    bool // sizes that need a thumbnail
	roots  bool // other values than a stack of layers
}

var kinds8 = []int{hx.KNRGBA, hx.KOpaque, hx.KGray, hx.KRGB, hx.KPaletted, hx.KGrayAlpha, hx.KPalettedAlpha, hx.KRGBA, hx.KNRGBA64, hx.KGray16, hx.KAlpha, hx.KCustom, hx.KYCbCr, hx.KPalTrans}

func genNodes(r *core.Run, o genOpts, depth, max int) []*hx.Node {
	n := 1 + r.N(max)

	if depth == o.depth {
		switch r.N(40) {
		case 38:
			return hx.GenMany(r, hx.Lots(r, 25, 50), modes)
		case 39:
			return hx.GenDeep(r, 4+r.N(40), modes)
		}
	}

	nodes := make([]*hx.Node, 0, n)

	for i := 0; i < n; i++ {
		nd := &hx.Node{
			Name: hx.GenName(r),
		}

		// Offsets are mostly small; inside a group they may be negative.
		if r.N(3) > 0 {
			nd.X, nd.Y = r.N(12), r.N(12)
		}

		switch r.N(4) {
		case 1:
			nd.T = uint8(r.N(256))
		case 2:
			nd.T = []uint8{1, 2, 127, 128, 254, 255}[r.N(6)]
		}

		nd.Hidden = r.N(5) == 4

		if r.N(3) > 0 {
			nd.Mode = modes[r.N(len(modes))]
		}

		if depth > 0 && r.N(4) == 3 {
			nd.Group = true
			nd.Form = r.N(2)

			if r.N(6) < 5 {
				nd.Kids = genNodes(r, o, depth-1, 3)
			}

			if hasSize(nd) && r.N(4) == 3 {
				// A child may start left of or above its group.
				k := nd.Kids[r.N(len(nd.Kids))]
				k.X, k.Y = -r.N(4), -r.N(4)

				if !hasSize(nd) {
					k.X, k.Y = 0, 0
				}

				nd.X, nd.Y = nd.X+16, nd.Y+16
			}
		} else {
			w, h := hx.GenSize(r, false)

			if o.big && i == 0 && r.N(6) > 3 {
				switch r.N(6) {
				case 4:
					w = 254 + r.N(6)
				case 5:
					h = 254 + r.N(6)
				case 0:
					w = 257 + r.N(300)
				case 1:
					h = 257 + r.N(300)
				case 2:
					w, h = 257+r.N(40), 257+r.N(40)
				default:
					w, h = 600+r.N(500), 1

					if r.N(2) == 1 {
						w, h = h, w
					}
				}
			}

			kind := o.kinds[r.N(len(o.kinds))]

			var pal = hx.NoPalette

			if hx.Indexed(kind) {
				pal = hx.Palette(r)
			}

			nd.Pix = hx.GenPixels(r, w, h, kind, pal)
			nd.Img = nd.Pix.Image()

			if r.N(16) == 15 { // stored as it looks
				nd.Mask = hx.GenPixels(r, w, h, hx.KGray, nil)
				nd.Form = r.N(8)
			}

			if r.N(12) == 11 {
				nd.Text = limage.TextData{{Data: "text", ForeColor: color.Black}}
				nd.Form = r.N(8)
			}
		}

		nodes = append(nodes, nd)
	}

	return nodes
}

func hasSize(n *hx.Node) bool {
	w, h := n.Size()

	return w > 0 && h > 0
}

func shift(nodes []*hx.Node, dx, dy int) []*hx.Node {
	out := make([]*hx.Node, len(nodes))

	for i, n := range nodes {
		c := *n
		c.X += dx
		c.Y += dy
		out[i] = &c
	}

	return out
}

func genPicture(r *core.Run, o genOpts) picture {
	var p picture

	if o.kinds == nil {
		o.kinds = kinds8
	}

	nodes := genNodes(r, o, o.depth, o.maxTop)

	for hx.Canvas(nodes).Empty() { // nothing but empty groups
		w, h := hx.GenSize(r, false)
		px := hx.GenPixels(r, w, h, hx.KNRGBA, nil)
		nodes = append(nodes, &hx.Node{Name: "filler", Pix: px, Img: px.Image()})
	}

	// The canvas need not be at the origin.
	dx, dy := 0, 0

	switch r.N(4) {
	case 2:
		b := hx.Canvas(nodes)
		dx, dy = -b.Min.X, -b.Min.Y
	case 3:
		dx, dy = r.N(40)-20, r.N(40)-20
	}

	nodes = shift(nodes, dx, dy)
	b := hx.Canvas(nodes)
	p.nodes = shift(nodes, -b.Min.X, -b.Min.Y)
	p.w, p.h = b.Dx(), b.Dy()
	im := hx.Layers(nodes)
	p.im = im
	root := "stack"

	if o.roots {
		switch r.N(8) {
		case 4:
			p.im, root = &im, "*stack"
		case 5, 6: // a plain image
			w, h := hx.GenSize(r, false)
			kind := o.kinds[r.N(len(o.kinds))]

			var pal = hx.NoPalette

			if hx.Indexed(kind) {
				pal = hx.Palette(r)
			}

			px := hx.GenPixels(r, w, h, kind, pal)
			n := &hx.Node{Pix: px, Img: px.Image()}

			if r.N(2) == 1 { // a part of something bigger
				n.Off = image.Pt(r.N(60)-20, r.N(60)-20)
			}

			p.plain = true
			p.im, root = n.Content(), fmt.Sprintf("plain at %v", n.Off)
			p.nodes = []*hx.Node{n}
			p.w, p.h = w, h
		case 7: // a group as the picture
			im = hx.Layers(p.nodes)
			l := limage.Layer{Name: "root", Image: im, LayerBounds: image.Rect(0, 0, p.w, p.h)}

			if r.N(2) == 0 {
				p.im, root = l, "layer"
			} else {
				p.im, root = &l, "*layer"
			}
		}
	}

	p.desc = fmt.Sprintf("%s %dx%d at %d,%d: %s", root, p.w, p.h, b.Min.X, b.Min.Y, hx.Describe(p.nodes))

	return p
}

// stored is what a PNG can hold of an image, by the standard library alone.
func stored(im image.Image) (image.Image, error) {
	var buf bytes.Buffer

	if err := png.Encode(&buf, im); err != nil {
		return nil, err
	}

	return png.Decode(&buf)
}

// exactly says whether a kind of image holds the very pixels of the model.
func exactly(kind int) bool {
	return kind != hx.KRGBA && kind != hx.KNRGBA64 && kind != hx.KYCbCr && kind != hx.KGray16
}

// sameContent compares an image with a part of what a layer was given. The
// pixels are first those any encoder makes of the image, and then those of the
// model the image was built from, whatever the image says of itself; passing
// through premultiplied colours may cost these a level.
func sameContent(got image.Image, n *hx.Node, part image.Rectangle) error {
	want, err := stored(hx.Look(n))
	if err != nil {
		return err
	}

	if err := samePixels(got, want, part); err != nil {
		return err
	}

	if !exactly(n.Pix.Kind) {
		return nil
	}

	gb := got.Bounds()

	for y := 0; y < part.Dy(); y++ {
		for x := 0; x < part.Dx(); x++ {
			g := nrgba(got.At(gb.Min.X+x, gb.Min.Y+y))
			e := nrgba(n.Pix.At(part.Min.X+x, part.Min.Y+y))

			if n.Mask != nil { // shown through it
				a := int(e.A) * int(n.Mask.At(part.Min.X+x, part.Min.Y+y).R) / 255
				if d := a - int(g.A); d < -0x101 || d > 0x101 {
					return fmt.Errorf("pixel %d,%d has alpha %04x, and was given with %04x", x, y, g.A, a)
				}

				e.A = g.A
			}

			if g.A != e.A || e.A != 0 && (differ(g.R, e.R) || differ(g.G, e.G) || differ(g.B, e.B)) {
				return fmt.Errorf("pixel %d,%d is %v, and was given as %v", x, y, g, e)
			}
		}
	}

	return nil
}

func differ(a, b uint16) bool { return a > b+0x101 && b < 0xfe00 || b > a+0x101 && a < 0xfe00 }

func nrgba(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA:
		return color.NRGBA64{uint16(c.R) * 0x101, uint16(c.G) * 0x101, uint16(c.B) * 0x101, uint16(c.A) * 0x101}
	case color.NRGBA64:
		return c
	}

	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

// samePixels compares an image with a part of another. Each is read from its
// own origin.
func samePixels(got, want image.Image, part image.Rectangle) error {
	gb, wb := got.Bounds(), want.Bounds()

	if gb.Dx() < part.Dx() || gb.Dy() < part.Dy() {
		return fmt.Errorf("image is %dx%d, not %dx%d", gb.Dx(), gb.Dy(), part.Dx(), part.Dy())
	}

	for y := 0; y < part.Dy(); y++ {
		for x := 0; x < part.Dx(); x++ {
			g := nrgba(got.At(gb.Min.X+x, gb.Min.Y+y))
			e := nrgba(want.At(wb.Min.X+part.Min.X+x, wb.Min.Y+part.Min.Y+y))

			if g != e && (g.A != 0 || e.A != 0) {
				return fmt.Errorf("pixel %d,%d is %v, not %v", x, y, g, e)
			}
		}
	}

	return nil
}

// sameLayers compares a decoded stack with the model, on a canvas of w by h.
func sameLayers(got limage.Image, want []*hx.Node, w, h int, path string) error {
	canvas := image.Rect(0, 0, w, h)

	return sameStack(got, want, canvas, canvas, image.Point{}, image.Point{}, path)
}

// visible is the smallest rectangle that has everything of a layer in it that
// can be seen through box. The layer is at the point pos of the canvas.
func visible(n *hx.Node, pos image.Point, box image.Rectangle) image.Rectangle {
	w, h := n.Size()
	b := image.Rectangle{pos, pos.Add(image.Pt(w, h))}.Intersect(box)

	if !n.Group {
		return b
	}

	var v image.Rectangle

	for _, k := range n.Kids {
		v = v.Union(visible(k, pos.Add(image.Pt(k.X, k.Y)), b))
	}

	return v
}

// hollow says whether there are layers of which nothing is left. These can not
// be saved again, as images have a size.
func hollow(im limage.Image) bool {
	for _, l := range im {
		if l.LayerBounds.Empty() {
			return true
		}

		if g, ok := l.Image.(limage.Image); ok && hollow(g) {
			return true
		}
	}

	return false
}

// sameStack compares the layers of a stack. Layers may have been cut at the
// edges of the canvas, and at those of the groups they are in; box is what all
// of these leave. The stack was at the point at of the canvas, and, if it was
// cut itself, is at now.
func sameStack(got limage.Image, want []*hx.Node, canvas, box image.Rectangle, at, now image.Point, path string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d layers, not %d", path, len(got), len(want))
	}

	for i, n := range want {
		l := got[i]
		p := fmt.Sprintf("%s/%d", path, i)

		switch {
		case l.Name != n.Name:
			return fmt.Errorf("%s: name %q, not %q", p, l.Name, n.Name)
		case l.Invisible != n.Hidden:
			return fmt.Errorf("%s: hidden %v, not %v", p, l.Invisible, n.Hidden)
		case l.Transparency != n.T:
			return fmt.Errorf("%s: transparency %d, not %d", p, l.Transparency, n.T)
		case l.Mode != n.Mode:
			return fmt.Errorf("%s: mode %d, not %d", p, l.Mode, n.Mode)
		}

		nw, nh := n.Size()
		pos := at.Add(image.Pt(n.X, n.Y))
		full := image.Rectangle{pos, pos.Add(image.Pt(nw, nh))}
		rw, rh := n.Reach()
		most, least := image.Rectangle{pos, pos.Add(image.Pt(rw, rh))}.Intersect(canvas), visible(n, pos, box)
		lb := l.LayerBounds.Add(now)

		switch {
		case most.Empty():
			if !lb.Empty() {
				return fmt.Errorf("%s: at %v, though outside of the canvas", p, lb)
			}
		case !least.In(lb) || !lb.In(most):
			return fmt.Errorf("%s: at %v, not %v", p, lb, most)
		}

		if n.Group {
			g, ok := l.Image.(limage.Image)
			if !ok {
				return fmt.Errorf("%s: not a group but %T", p, l.Image)
			}

			if lb.Empty() { // nothing of it is left
				if len(g) != len(n.Kids) {
					return fmt.Errorf("%s has %d layers, not %d", p, len(g), len(n.Kids))
				}

				continue
			}

			if err := sameStack(g, n.Kids, canvas, least, pos, lb.Min, p); err != nil {
				return err
			}

			continue
		}

		if _, ok := l.Image.(limage.Image); ok || l.Image == nil {
			return fmt.Errorf("%s: not pixels but %T", p, l.Image)
		}

		if lb.Empty() {
			continue
		}

		if b := l.Image.Bounds(); b.Dx() > nw || b.Dy() > nh || lb == full && b.Size() != full.Size() {
			return fmt.Errorf("%s: image %v, not %dx%d", p, b, nw, nh)
		}

		if err := sameContent(l.Image, n, lb.Sub(pos)); err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
	}

	return nil
}

// fingerprint identifies everything that can be observed of a decoded stack.
func fingerprint(im limage.Image) string {
	h := crc32.NewIEEE()

	var walk func(im limage.Image, path string)

	walk = func(im limage.Image, path string) {
		for i, l := range im {
			fmt.Fprintf(h, "%s/%d %q %v %d %v %d %T;", path, i, l.Name, l.LayerBounds, l.Mode, l.Invisible, l.Transparency, l.Image)

			if g, ok := l.Image.(limage.Image); ok {
				walk(g, path+"/"+strconv.Itoa(i))

				continue
			}

			if l.Image == nil {
				continue
			}

			b := l.Image.Bounds()
			fmt.Fprintf(h, "%v;", b)

			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					c := nrgba(l.Image.At(x, y))
					h.Write([]byte{byte(c.R >> 8), byte(c.R), byte(c.G >> 8), byte(c.G), byte(c.B >> 8), byte(c.B), byte(c.A >> 8), byte(c.A)})
				}
			}
		}
	}

	walk(im, "")

	return fmt.Sprintf("%d layers %08x", len(im), h.Sum32())
}

// elem is an element of a stack description, read independently of the code
// under test.
type elem struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []elem     `xml:",any"`
}

func (e elem) attr(name, def string) (string, error) {
	v, seen := def, false

	for _, a := range e.Attrs {
		if a.Name.Local == name {
			if seen {
				return "", fmt.Errorf("attribute %s twice on <%s>", name, e.XMLName.Local)
			}

			v, seen = a.Value, true
		}
	}

	return v, nil
}

type archive struct {
	zr    *zip.Reader
	files map[string][]byte
	order []string
	root  elem
}

// parseArchive reads an archive completely and checks that it is what the
// format asks for.
func parseArchive(data []byte) (*archive, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, fmt.Errorf("not an archive: %w", err)
	}

	a := &archive{zr: zr, files: make(map[string][]byte)}

	for _, f := range zr.File {
		if _, ok := a.files[f.Name]; ok {
			return nil, fmt.Errorf("entry %s twice", f.Name)
		}

		rc, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("entry %s: %w", f.Name, err)
		}

		b, err := io.ReadAll(rc)
		if err != nil {
			return nil, fmt.Errorf("entry %s: %w", f.Name, err)
		}

		a.files[f.Name] = b
		a.order = append(a.order, f.Name)
	}

	if len(zr.File) == 0 || zr.File[0].Name != "mimetype" || zr.File[0].Method != zip.Store || string(a.files["mimetype"]) != "image/openraster" {
		return nil, fmt.Errorf("the first entry is not a stored mimetype")
	}

	off, err := zr.File[0].DataOffset()
	if err != nil || off != 30+int64(len("mimetype")) {
		return nil, fmt.Errorf("the mimetype is at offset %d, not 38", off)
	}

	stack, ok := a.files["stack.xml"]
	if !ok {
		return nil, fmt.Errorf("no stack.xml")
	}

	d := xml.NewDecoder(bytes.NewReader(stack))
	if err := d.Decode(&a.root); err != nil {
		return nil, fmt.Errorf("stack.xml: %w", err)
	}

	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		} else if err != nil {
			return nil, fmt.Errorf("stack.xml: %w", err)
		}

		if _, ok := t.(xml.CharData); !ok {
			return nil, fmt.Errorf("stack.xml: %T after the end", t)
		}
	}

	if a.root.XMLName.Local != "image" || len(a.root.Kids) != 1 || a.root.Kids[0].XMLName.Local != "stack" {
		return nil, fmt.Errorf("stack.xml is not an image with one stack")
	}

	for _, n := range []string{"mergedimage.png", "Thumbnails/thumbnail.png"} {
		if _, err := png.Decode(bytes.NewReader(a.files[n])); err != nil {
			return nil, fmt.Errorf("%s: %w", n, err)
		}
	}

	return a, nil
}

// storedLayers counts the layers, and checks that the image of each is there.
func (a *archive) storedLayers() (int, error) {
	var walk func(e elem) (int, error)

	walk = func(e elem) (int, error) {
		if e.XMLName.Local == "layer" {
			src, err := e.attr("src", "")
			if err != nil {
				return 0, err
			}

			if _, err := png.Decode(bytes.NewReader(a.files[src])); err != nil {
				return 0, fmt.Errorf("source %q: %w", src, err)
			}

			return 1, nil
		}

		n := 0

		for _, k := range e.Kids {
			m, err := walk(k)
			if err != nil {
				return 0, err
			}

			n += m
		}

		return n, nil
	}

	return walk(a.root)
}

// check compares the archive, as any reader of the format sees it, with the
// model.
func (a *archive) check(p picture, attrs bool) error {
	for n, want := range map[string]int{"w": p.w, "h": p.h} {
		if v, err := a.root.attr(n, ""); err != nil || v != strconv.Itoa(want) {
			return fmt.Errorf("image attribute %s is %q, not %d", n, v, want)
		}
	}

	return a.checkStack(a.root.Kids[0], p.nodes, "", attrs)
}

// checkStack checks one level. Without attrs only that every layer is there
// with an image of its own size.
func (a *archive) checkStack(s elem, nodes []*hx.Node, path string, attrs bool) error {
	if len(s.Kids) != len(nodes) {
		return fmt.Errorf("stack %s holds %d layers, not %d", path, len(s.Kids), len(nodes))
	}

	for i, n := range nodes {
		e := s.Kids[i]
		p := path + "/" + strconv.Itoa(i)

		tag, vis := "layer", "visible"
		if n.Group {
			tag = "stack"
		}

		if n.Hidden {
			vis = "hidden"
		}

		if e.XMLName.Local != tag {
			return fmt.Errorf("%s: <%s>, not <%s>", p, e.XMLName.Local, tag)
		}

		pos := n.Group && !hasSize(n)

		for _, c := range [][3]string{
			{"name", "", n.Name},
			{"x", "0", strconv.Itoa(n.X)},
			{"y", "0", strconv.Itoa(n.Y)},
			{"visibility", "visible", vis},
			{"composite-op", "svg:src-over", hx.OpNames[n.Mode]},
		} {
			v, err := e.attr(c[0], c[1])
			if err != nil {
				return fmt.Errorf("%s: %w", p, err)
			}

			if attrs && v != c[2] && !(pos && len(c[0]) == 1) {
				return fmt.Errorf("%s: %s is %q, not %q", p, c[0], v, c[2])
			}
		}

		v, err := e.attr("opacity", "1")
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}

		o, err := strconv.ParseFloat(v, 64)
		if attrs && (err != nil || math.Abs(o-float64(255-n.T)/255) > 0.25/255) {
			return fmt.Errorf("%s: opacity %q for transparency %d", p, v, n.T)
		}

		if n.Group {
			if err := a.checkStack(e, n.Kids, p, attrs); err != nil {
				return err
			}

			continue
		}

		src, err := e.attr("src", "")
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}

		data, ok := a.files[src]
		if !ok {
			return fmt.Errorf("%s: source %q is not in the archive", p, src)
		}

		im, err := png.Decode(bytes.NewReader(data))
		if err != nil {
			return fmt.Errorf("%s: source %q: %w", p, src, err)
		}

		if b := im.Bounds(); b.Dx() != n.Pix.W || b.Dy() != n.Pix.H {
			return fmt.Errorf("%s: source %q is %v, not %dx%d", p, src, b, n.Pix.W, n.Pix.H)
		}

		if !attrs {
			continue
		}

		if err := sameContent(im, n, image.Rect(0, 0, n.Pix.W, n.Pix.H)); err != nil {
			return fmt.Errorf("%s: source %q: %w", p, src, err)
		}
	}

	return nil
}
