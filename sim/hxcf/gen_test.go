//go:build go1.25

package hxcf

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

type colorNRGBA = color.NRGBA

type genOpts struct {
	maxTop int
	depth  int
	big    bool // layers of several tiles
	text   bool
	mask   bool
	edges  bool // layers may cross the edges of the canvas
	kind   func(last bool) int
	modes  []limage.Composite
	pal    []lcolor.RGB
	forms  bool
	bottom bool // the layers are the bottom of the picture
	mono   bool // mode, opacity and such matter as well
}

var texts = []string{"x", "Hello", "two\nlines", "a \"quoted\" \\ <tag> & 'more'", "ünï→码", "tab\there", "(paren) #1 ;", "  spaces  "}

func genColour(r *core.Run) color.Color {
	v := func() uint8 { return []uint8{0, 255, 1, 127, 128, 200}[r.N(6)] }

	switch r.N(3) {
	case 1:
		return lcolor.RGB{R: v(), G: v(), B: v()}
	case 2:
		return color.NRGBA{R: v(), G: v(), B: v(), A: 255}
	}

	return color.Gray{}
}

func genText(r *core.Run, nils bool) limage.TextData {
	n := 1
	if r.N(2) == 1 {
		n = 1 + r.N(4)
	}

	td := make(limage.TextData, n)

	for i := range td {
		d := limage.TextDatum{
			Data:      texts[r.N(len(texts))],
			Font:      []string{"Sans", "Serif Bold", "A \"b\" & c", "Sans"}[r.N(4)],
			Size:      []uint32{18, 1, 12, 300, 18}[r.N(5)],
			ForeColor: genColour(r),
		}

		if nils && r.N(6) == 5 {
			d.ForeColor = nil
		}

		switch r.N(4) {
		case 0:
			d.BackColor = color.Alpha{}
		case 1:
			if nils {
				d.BackColor = nil
			}
		case 2:
			if r.N(3) == 2 {
				d.BackColor = genColour(r)
			}
		}

		if r.N(2) == 1 {
			d.Bold, d.Italic = r.N(2) == 1, r.N(2) == 1
			d.Underline, d.Strikethrough = r.N(2) == 1, r.N(2) == 1
		}

		if r.N(3) == 2 {
			d.LetterSpacing, d.Rise = uint32(r.N(9)), uint32(r.N(9))
		}

		td[i] = d
	}

	return td
}

func genNodes(r *core.Run, o genOpts, depth, most int, abs image.Point) []*hx.Node {
	n := 1 + r.N(most)

	if depth == o.depth {
		var nodes []*hx.Node

		switch r.N(40) {
		case 38:
			nodes = hx.GenMany(r, hx.Lots(r, 25, 50), o.modes)
		case 39:
			nodes = hx.GenDeep(r, 4+r.N(40), o.modes)
		}

		if nodes != nil {
			o.dress(r, nodes, true)

			return nodes
		}
	}

	nodes := make([]*hx.Node, 0, n)

	for i := 0; i < n; i++ {
		nd := &hx.Node{Name: hx.GenName(r)}
		bottom := o.bottom && depth == o.depth && i == n-1

		if r.N(3) > 0 {
			nd.X, nd.Y = r.N(12), r.N(12)
		}

		switch r.N(4) {
		case 1:
			nd.T = uint8(r.N(256))
		case 2:
			nd.T = []uint8{1, 2, 127, 128, 254, 255}[r.N(6)]
		}

		nd.Hidden = r.N(5) == 4

		if r.N(3) > 0 {
			nd.Mode = o.modes[r.N(len(o.modes))]
		}

		if bottom && nd.Mode != limage.CompositeDissolve {
			nd.Mode = limage.CompositeNormal // nothing to blend with
		}

		if o.forms {
			nd.Form = r.N(8)
		}

		if depth > 0 && r.N(4) == 3 {
			nd.Group = true

			if r.N(6) < 5 {
				p := o
				p.bottom = false
				nd.Kids = genNodes(r, p, depth-1, 3, abs.Add(image.Pt(nd.X, nd.Y)))
			}

			if w, h := nd.Size(); w > 0 && h > 0 && r.N(4) == 3 {
				k := nd.Kids[r.N(len(nd.Kids))]
				k.X, k.Y = -r.N(4), -r.N(4)

				if w, h := nd.Size(); w <= 0 || h <= 0 {
					k.X, k.Y = 0, 0
				}

				nd.X, nd.Y = nd.X+16, nd.Y+16
			}
		} else {
			w, h := hx.GenSize(r, o.big)
			kind := o.kind(bottom)
			pal := o.pal

			if hx.Indexed(kind) && pal == nil {
				pal = hx.Palette(r)
			}

			nd.Pix = hx.GenPixels(r, w, h, kind, pal)
			nd.Img = nd.Pix.Image()

			if o.text && r.N(6) == 5 {
				nd.Text = genText(r, o.forms)
			}
		}

		if w, h := nd.Size(); o.mask && w > 0 && h > 0 && r.N(4) == 3 {
			nd.Mask = hx.GenPixels(r, w, h, hx.KGray, nil)
		}

		nodes = append(nodes, nd)
	}

	return nodes
}

// dress gives pixels of the right kind to layers.
func (o genOpts) dress(r *core.Run, nodes []*hx.Node, top bool) {
	for i, n := range nodes {
		bottom := o.bottom && top && i == len(nodes)-1

		if bottom && n.Mode != limage.CompositeDissolve {
			n.Mode = limage.CompositeNormal
		}

		if n.Group {
			o.dress(r, n.Kids, false)

			continue
		}

		pal := o.pal
		kind := o.kind(bottom)

		if hx.Indexed(kind) && pal == nil {
			pal = hx.Palette(r)
		}

		n.Pix = hx.GenPixels(r, n.Pix.W, n.Pix.H, kind, pal)
		n.Img = n.Pix.Image()
	}
}

// genFile makes a model file.
func genFile(r *core.Run, big bool) *xfile {
	f := &xfile{
		version: []int{0, 3, 11, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 13}[r.N(14)],
		base:    r.N(3),
		rle:     r.N(4) > 0,
		extents: make(map[*hx.Node]image.Rectangle),
	}

	o := genOpts{maxTop: 4, depth: 2, big: big, text: true, mask: true, bottom: true, modes: modes}

	if f.base == baseIndexed {
		f.pal = hx.Palette(r)
		o.pal = f.pal
		o.modes = []limage.Composite{limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind}
	}

	with := []int{hx.KNRGBA, hx.KGrayAlpha, hx.KPalettedAlpha}[f.base]
	without := []int{hx.KRGB, hx.KGray, hx.KPaletted}[f.base]

	o.kind = func(last bool) int {
		if last && r.N(2) == 1 {
			return without
		}

		return with
	}

	if r.N(12) == 11 {
		f.nodes = nil // no layers at all
		f.w, f.h = 1+r.N(20), 1+r.N(20)
	} else {
		f.nodes = genNodes(r, o, o.depth, o.maxTop, image.Point{})
		b := hx.Canvas(f.nodes)
		f.w, f.h = max(b.Max.X, 1), max(b.Max.Y, 1)

		switch r.N(3) {
		case 1: // a canvas of its own size
			f.w, f.h = 1+r.N(f.w+10), 1+r.N(f.h+10)
		case 2: // and layers beyond all of its edges
			dx, dy := r.N(20), r.N(20)

			for _, n := range f.nodes {
				n.X -= dx
				n.Y -= dy
			}

			f.w, f.h = 1+r.N(f.w+10), 1+r.N(f.h+10)
		}
	}

	// What a group is said to span: its layers.
	var walk func(nodes []*hx.Node, at image.Point)

	walk = func(nodes []*hx.Node, at image.Point) {
		for _, n := range nodes {
			if !n.Group {
				continue
			}

			pos := at.Add(image.Pt(n.X, n.Y))
			w, h := n.Size()
			f.extents[n] = image.Rectangle{pos, pos.Add(image.Pt(w, h))}

			walk(n.Kids, pos)
		}
	}

	walk(f.nodes, image.Point{})

	f.desc = fmt.Sprintf("version %d, %dx%d, base %d, rle %v, palette of %d: %s", f.version, f.w, f.h, f.base, f.rle, len(f.pal), hx.Describe(f.nodes))

	return f
}

// picture is a model picture and the value that is handed to the encoder.
type picture struct {
	im    image.Image
	nodes []*hx.Node // with the canvas at the origin
	w, h  int
	base  int
	pal   []color.Color
	desc  string
}

var (
	rgbKinds  = []int{hx.KNRGBA, hx.KOpaque, hx.KRGB, hx.KRGBA, hx.KNRGBA64, hx.KAlpha, hx.KCustom, hx.KYCbCr}
	grayKinds = []int{hx.KGray, hx.KGrayAlpha, hx.KGray16}
	palKinds  = []int{hx.KPaletted, hx.KPalettedAlpha, hx.KPalTrans}
	allKinds  = append(append(append([]int{}, rgbKinds...), grayKinds...), palKinds...)
)

// first is the layer that decides on the colour type.
func first(nodes []*hx.Node) *hx.Node {
	if len(nodes) == 0 {
		return nil
	}

	if nodes[0].Group {
		return first(nodes[0].Kids)
	}

	return nodes[0]
}

func in(k int, list []int) bool {
	for _, v := range list {
		if v == k {
			return true
		}
	}

	return false
}

func genPicture(r *core.Run, o genOpts) picture {
	var p picture

	theme := r.N(5)
	kinds := [][]int{rgbKinds, grayKinds, palKinds, allKinds, {hx.KNRGBA}}[theme]
	o.kind = func(bool) int { return kinds[r.N(len(kinds))] }
	o.modes = modes
	o.forms = true
	o.bottom = true

	if theme == 2 {
		o.pal = hx.Palette(r)
	}

	nodes := genNodes(r, o, o.depth, o.maxTop, image.Point{})

	for hx.Canvas(nodes).Empty() { // nothing but empty groups
		w, h := hx.GenSize(r, false)
		px := hx.GenPixels(r, w, h, hx.KNRGBA, nil)
		nodes = append(nodes, &hx.Node{Name: "filler", Pix: px, Img: px.Image()})
	}

	dx, dy := 0, 0

	switch r.N(4) {
	case 2:
		b := hx.Canvas(nodes)
		dx, dy = -b.Min.X, -b.Min.Y
	case 3:
		dx, dy = r.N(40)-20, r.N(40)-20
	}

	for _, n := range nodes {
		n.X += dx
		n.Y += dy
	}

	b := hx.Canvas(nodes)
	im := hx.Layers(nodes)
	p.im = im
	p.w, p.h = b.Dx(), b.Dy()

	for _, n := range nodes { // on the canvas
		n.X -= b.Min.X
		n.Y -= b.Min.Y
	}

	p.nodes = nodes
	root := "stack"

	switch r.N(8) {
	case 4:
		p.im, root = &im, "*stack"
	case 5: // one layer
		n := nodes[r.N(len(nodes))]
		w, h := n.Size()

		if w > 0 && h > 0 {
			if n.Mode != limage.CompositeDissolve {
				n.Mode = limage.CompositeNormal // nothing to blend with
			}

			l := hx.Layers([]*hx.Node{n})[0]
			n.X, n.Y = 0, 0
			p.nodes = []*hx.Node{n}
			p.w, p.h = w, h
			p.im, root = l, "layer"

			if r.N(2) == 0 {
				p.im, root = &l, "*layer"
			}
		}
	case 6: // what a layer holds
		n := *nodes[r.N(len(nodes))]

		if !n.Group {
			w, h := n.Size()
			p.nodes = []*hx.Node{{Pix: n.Pix, Img: n.Img, Mask: n.Mask, Text: n.Text, Form: n.Form}}
			p.w, p.h = w, h

			if r.N(2) == 1 { // a part of something bigger
				p.nodes[0].Off = image.Pt(r.N(100)-30, r.N(100)-30)
			}

			p.im, root = p.nodes[0].Content(), fmt.Sprintf("content at %v", p.nodes[0].Off)
		}
	case 7:
		if r.N(4) == 3 {
			p.im, p.nodes, p.w, p.h, root = limage.Image{}, nil, 0, 0, "nothing"
		}
	}

	if n := first(p.nodes); n != nil {
		switch {
		case in(n.Pix.Kind, grayKinds):
			p.base = baseGray
		case in(n.Pix.Kind, palKinds):
			p.base = baseIndexed

			for _, c := range n.Pix.Pal {
				p.pal = append(p.pal, c)
			}
		}
	}

	p.desc = fmt.Sprintf("%s %dx%d at %d,%d, base %d: %s", root, p.w, p.h, b.Min.X, b.Min.Y, p.base, hx.Describe(p.nodes))

	return p
}
