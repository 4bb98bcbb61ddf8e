//go:build go1.25

package hxcf

import (
	"encoding/binary"
	"fmt"
	"html"
	"image"
	"math"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

// An independent writer of the format, after GIMP's description of it.

// Base types.
const (
	baseRGB = iota
	baseGray
	baseIndexed
)

// xfile is a model file.
type xfile struct {
	compact bool // no holes in the file

	version int
	w, h    int
	base    int
	rle     bool
	pal     []lcolor.RGB
	nodes   []*hx.Node
	extents map[*hx.Node]image.Rectangle // of groups, on the canvas
	desc    string
}

// span is a field of a written file.
type span struct {
	off, n int
	label  string
}

// built is a written file. Files may have a hole: n zero bytes that are not
// kept.
type built struct {
	data   []byte
	holeAt int64
	hole   int64
	spans  []span
	blocks []int64 // where the blocks start
}

type fixup struct {
	at  int
	dst *block
}

// block is a part of a file that can lie anywhere.
type block struct {
	b     []byte
	spans []span
	fix   []fixup
	off   int64
}

func (b *block) note(n int, label string) { b.spans = append(b.spans, span{len(b.b), n, label}) }

func (b *block) u32(label string, v uint32) {
	b.note(4, label)

	b.b = binary.BigEndian.AppendUint32(b.b, v)
}

func (b *block) u8(label string, v uint8) {
	b.note(1, label)

	b.b = append(b.b, v)
}

func (b *block) f32(v float32) { b.u32("float", math.Float32bits(v)) }

func (b *block) str(s string) {
	b.u32("strlen", uint32(len(s)+1))
	b.note(len(s)+1, "str")

	b.b = append(append(b.b, s...), 0)
}

// noStr is a string that is not there.
func (b *block) noStr() { b.u32("strlen", 0) }

type builder struct {
	r      *core.Run
	f      *xfile
	blocks []*block
	plain  bool // nothing optional
}

func (w *builder) wide() bool { return w.f.version >= 11 }

func (w *builder) ptr(b *block, dst *block) {
	n := 4
	if w.wide() {
		n = 8
	}

	b.note(n, "ptr")

	if dst != nil {
		b.fix = append(b.fix, fixup{len(b.b), dst})
	}

	b.b = append(b.b, make([]byte, n)...)
}

func (w *builder) block() *block {
	b := new(block)
	w.blocks = append(w.blocks, b)

	return b
}

// prop writes a property whose payload is built by f.
func (w *builder) prop(b *block, id uint32, f func(b *block)) {
	b.u32("prop", id)

	at := len(b.b)

	b.u32("plen", 0)

	if f != nil {
		f(b)
	}

	binary.BigEndian.PutUint32(b.b[at:], uint32(len(b.b)-at-4))
}

func (w *builder) propU32(b *block, id, v uint32) {
	w.prop(b, id, func(b *block) { b.u32("value", v) })
}

func boolean(v bool) uint32 {
	if v {
		return 1
	}

	return 0
}

// rleEncode codes a plane of a tile. Which of the possible codings is drawn.
func (w *builder) rleEncode(b *block, p []byte, rng *hx.PRNG, style int) {
	for i := 0; i < len(p); {
		run := 1
		for i+run < len(p) && p[i+run] == p[i] {
			run++
		}

		repeat := run >= 2
		if style == 1 { // anything that is valid
			repeat = rng.Next(2) == 0
		}

		if repeat {
			n := run
			if style == 1 {
				n = 1 + rng.Next(run)
			}

			if n > 127 || style == 1 && rng.Next(3) == 0 {
				b.u8("rle", 127)
				b.note(2, "rle")

				b.b = binary.BigEndian.AppendUint16(b.b, uint16(n))
			} else {
				b.u8("rle", uint8(n-1))
			}

			b.note(1, "rledata")

			b.b = append(b.b, p[i])
			i += n

			continue
		}

		// A stretch as it is: up to the next run of three.
		n := 1
		for i+n < len(p) && !(i+n+2 < len(p) && p[i+n] == p[i+n+1] && p[i+n] == p[i+n+2]) {
			n++
		}

		if style == 1 {
			n = 1 + rng.Next(min(len(p)-i, 300))
		}

		if n > 127 || style == 1 && rng.Next(3) == 0 {
			b.u8("rle", 128)
			b.note(2, "rle")

			b.b = binary.BigEndian.AppendUint16(b.b, uint16(n))
		} else {
			b.u8("rle", uint8(256-n))
		}

		b.note(n, "rledata")

		b.b = append(b.b, p[i:i+n]...)
		i += n
	}
}

// planes are the channels of a layer, as stored.
func planes(p *hx.Pixels, base int, alpha bool) [][]byte {
	n := map[int]int{baseRGB: 3, baseGray: 1, baseIndexed: 1}[base]
	if alpha {
		n++
	}

	out := make([][]byte, n)
	for i := range out {
		out[i] = make([]byte, len(p.P))
	}

	for i, c := range p.P {
		switch base {
		case baseRGB:
			out[0][i], out[1][i], out[2][i] = c.R, c.G, c.B
		case baseGray:
			out[0][i] = c.R
		case baseIndexed:
			out[0][i] = p.Idx[i]
		}

		if alpha {
			out[n-1][i] = c.A
		}
	}

	return out
}

// pixels writes a hierarchy.
func (w *builder) hierarchy(wd, ht int, pl [][]byte) *block {
	h := w.block()
	h.u32("width", uint32(wd))
	h.u32("height", uint32(ht))
	h.u32("bpp", uint32(len(pl)))

	l := w.block()
	w.ptr(h, l)

	if !w.plain && w.r.N(3) == 2 { // levels nobody reads
		for n := 1 + w.r.N(2); n > 0; n-- {
			e := w.block()
			e.u32("unused", uint32(wd/2))
			e.u32("unused", uint32(ht/2))
			w.ptr(e, nil)
			w.ptr(h, e)
		}
	}

	w.ptr(h, nil)
	l.u32("width", uint32(wd))
	l.u32("height", uint32(ht))

	rng := hx.PRNG(1)
	style := 0

	if !w.plain {
		style = w.r.N(2)
		rng = hx.PRNG(w.r.Tape.Draw(core.Gen, 1<<32))
	}

	shared := make(map[string]*block)
	share := !w.plain && w.r.N(3) == 2

	for y := 0; y < ht; y += 64 {
		for x := 0; x < wd; x += 64 {
			tw, th := min(64, wd-x), min(64, ht-y)
			t := new(block)

			var pix []byte

			for _, p := range pl {
				tile := make([]byte, 0, tw*th)

				for j := y; j < y+th; j++ {
					tile = append(tile, p[j*wd+x:j*wd+x+tw]...)
				}

				if w.f.rle {
					w.rleEncode(t, tile, &rng, style)
				} else {
					pix = append(pix, tile...)
				}
			}

			if !w.f.rle {
				// Without compression the pixels are stored one after the
				// other, in the order of the channels.
				n := tw * th
				for i := 0; i < n; i++ {
					for c := range pl {
						t.b = append(t.b, pix[c*n+i])
					}
				}

				t.spans = append(t.spans, span{0, len(t.b), "pixels"})
			}

			if o := shared[string(t.b)]; share && o != nil {
				w.ptr(l, o)

				continue
			}

			shared[string(t.b)] = t
			w.blocks = append(w.blocks, t)
			w.ptr(l, t)
		}
	}

	w.ptr(l, nil)

	return h
}

// quote writes a string of a text parasite as GIMP does.
func quote(s string) string {
	var sb strings.Builder

	sb.WriteByte('"')

	for _, c := range s {
		switch c {
		case '"', '\\':
			sb.WriteByte('\\')
			sb.WriteRune(c)
		case '\n':
			sb.WriteString("\\n")
		case '\t':
			sb.WriteString("\\t")
		default:
			sb.WriteRune(c)
		}
	}

	sb.WriteByte('"')

	return sb.String()
}

func rgb8(c interface {
	RGBA() (r, g, b, a uint32)
}) (uint8, uint8, uint8) {
	r, g, b, _ := c.RGBA()

	return uint8(r >> 8), uint8(g >> 8), uint8(b >> 8)
}

// textParasite describes text the way GIMP does. The first datum's font, size
// and colour are the defaults of the layer if it is the only one.
func (w *builder) textParasite(t limage.TextData, wd, ht int) string {
	var sb strings.Builder

	base := limage.TextDatum{Font: "Sans", Size: 18}
	br, bg, bb := uint8(0), uint8(0), uint8(0)

	if len(t) == 1 && plainText(t[0]) {
		base = t[0]
		br, bg, bb = rgb8(t[0].ForeColor)

		fmt.Fprintf(&sb, "(text %s)\n", quote(t[0].Data))
	} else {
		var m strings.Builder

		m.WriteString("<markup>")

		for _, d := range t {
			var end []string

			open := func(tag, attrs string) {
				m.WriteString("<" + tag + attrs + ">")

				end = append(end, "</"+tag+">")
			}

			if d.Bold {
				open("b", "")
			}

			if d.Italic {
				open("i", "")
			}

			if r, g, b := rgb8(d.ForeColor); r|g|b != 0 {
				open("span", fmt.Sprintf(" foreground=\"#%02x%02x%02x\"", r, g, b))
			}

			if d.BackColor != nil {
				if _, _, _, a := d.BackColor.RGBA(); a != 0 {
					r, g, b := rgb8(d.BackColor)
					open("span", fmt.Sprintf(" background=\"#%02x%02x%02x\"", r, g, b))
				}
			}

			if d.Underline {
				open("u", "")
			}

			attrs := ""
			if d.Font != base.Font {
				attrs += " font=\"" + html.EscapeString(d.Font) + "\""
			}

			if d.Size != base.Size {
				attrs += fmt.Sprintf(" size=\"%d\"", d.Size*1024)
			}

			if attrs != "" {
				open("span", attrs)
			}

			if d.Strikethrough {
				open("s", "")
			}

			if d.LetterSpacing != 0 {
				open("span", fmt.Sprintf(" letter_spacing=\"%d\"", d.LetterSpacing*1024))
			}

			if d.Rise != 0 {
				open("span", fmt.Sprintf(" rise=\"%d\"", d.Rise*1024))
			}

			m.WriteString(html.EscapeString(d.Data))

			for i := len(end) - 1; i >= 0; i-- {
				m.WriteString(end[i])
			}
		}

		m.WriteString("</markup>")
		fmt.Fprintf(&sb, "(markup %s)\n", quote(m.String()))
	}

	fmt.Fprintf(&sb, "(font %s)\n", quote(base.Font))
	fmt.Fprintf(&sb, "(font-size %d.000000)\n(font-size-unit pixels)\n(antialias yes)\n", base.Size)
	sb.WriteString("(language \"en-us\")\n(base-direction ltr)\n")
	fmt.Fprintf(&sb, "(color (color-rgb %f %f %f))\n", float64(br)/255, float64(bg)/255, float64(bb)/255)
	fmt.Fprintf(&sb, "(justify left)\n(box-mode dynamic)\n(box-width %d.000000)\n(box-height %d.000000)\n(box-unit pixels)\n(hinting yes)\n", wd, ht)
	sb.WriteByte(0)

	return sb.String()
}

// plainText reports whether a datum needs no markup.
func plainText(d limage.TextDatum) bool {
	if d.BackColor != nil {
		if _, _, _, a := d.BackColor.RGBA(); a != 0 {
			return false
		}
	}

	return !d.Bold && !d.Italic && !d.Underline && !d.Strikethrough && d.LetterSpacing == 0 && d.Rise == 0
}

// The numbers of the blend modes, and what they mean here.
var modeNumbers = map[limage.Composite][]uint32{
	limage.CompositeNormal:       {0, 28},
	limage.CompositeDissolve:     {1},
	limage.CompositeBehind:       {2, 29},
	limage.CompositeMultiply:     {3, 30},
	limage.CompositeScreen:       {4, 31},
	limage.CompositeOverlay:      {5, 23},
	limage.CompositeDifference:   {6, 32},
	limage.CompositeAddition:     {7, 33},
	limage.CompositeSubtract:     {8, 34},
	limage.CompositeDarkenOnly:   {9, 35, 54},
	limage.CompositeLightenOnly:  {10, 36, 55},
	limage.CompositeHue:          {11, 37, 24},
	limage.CompositeSaturation:   {12, 38},
	limage.CompositeColor:        {13, 39, 26},
	limage.CompositeValue:        {14, 40},
	limage.CompositeDivide:       {15, 41},
	limage.CompositeDodge:        {16, 42},
	limage.CompositeBurn:         {17, 43},
	limage.CompositeHardLight:    {18, 44},
	limage.CompositeSoftLight:    {19, 45},
	limage.CompositeGrainExtract: {20, 46},
	limage.CompositeGrainMerge:   {21, 47},
	limage.CompositeColorErase:   {22, 57},
	limage.CompositeChroma:       {25},
	limage.CompositeLightness:    {27},
	limage.CompositeVividLight:   {48},
	limage.CompositePinLight:     {49},
	limage.CompositeLinearLight:  {50},
	limage.CompositeHardMix:      {51},
	limage.CompositeExclusion:    {52},
	limage.CompositeLinearBurn:   {53},
	limage.CompositeLuminance:    {56},
	limage.CompositeErase:        {58},
	limage.CompositeMerge:        {59},
	limage.CompositeSplit:        {60},
	limage.CompositePassThrough:  {61},
}

var modes = func() []limage.Composite {
	var m []limage.Composite

	for c := limage.CompositeNormal; c <= limage.CompositePassThrough; c++ {
		if _, ok := modeNumbers[c]; ok {
			m = append(m, c)
		}
	}

	return m
}()

// flat is a layer in file order.
type flat struct {
	n    *hx.Node
	at   image.Point
	path []uint32
}

func flatten(nodes []*hx.Node, at image.Point, path []uint32) []flat {
	var out []flat

	for i, n := range nodes {
		p := append(append([]uint32(nil), path...), uint32(i))
		pos := at.Add(image.Pt(n.X, n.Y))
		out = append(out, flat{n, pos, p})

		if n.Group {
			out = append(out, flatten(n.Kids, pos, p)...)
		}
	}

	return out
}

func hasAlpha(kind int) bool {
	return kind == hx.KNRGBA || kind == hx.KGrayAlpha || kind == hx.KPalettedAlpha
}

// noise writes properties that do not matter here.
func (w *builder) noise(b *block, layer bool) {
	if w.plain {
		return
	}

	r := w.r

	for n := r.N(4); n > 0; n-- {
		switch r.N(16) {
		case 0:
			w.propU32(b, 9, uint32(r.N(2))) // linked
		case 1:
			w.propU32(b, 28, uint32(r.N(2))) // lock content
		case 2:
			w.propU32(b, 20, uint32(r.N(1000))) // tattoo
		case 3:
			w.prop(b, 21, func(b *block) { // parasites
				for n := r.N(3); n > 0; n-- {
					b.str([]string{"gimp-comment", "x", "icc-profile"}[r.N(3)])
					b.u32("value", uint32(r.N(2)))

					s := strings.Repeat("y", r.N(40))

					b.u32("datalen", uint32(len(s)))

					b.b = append(b.b, s...)
				}
			})
		case 4:
			w.prop(b, 1000+uint32(r.N(100)), func(b *block) { b.b = append(b.b, make([]byte, r.N(30))...) })
		case 5:
			w.propU32(b, 34, uint32(r.N(9))) // colour tag
		case 6:
			w.propU32(b, 32, uint32(r.N(2))) // lock position
		default:
			if layer {
				w.layerNoise(b)
			} else {
				w.imageNoise(b)
			}
		}
	}
}

func (w *builder) layerNoise(b *block) {
	r := w.r

	switch r.N(9) {
	case 0:
		w.propU32(b, 10, uint32(r.N(2))) // lock alpha
	case 1:
		w.propU32(b, 11, 1) // apply mask
	case 2:
		w.propU32(b, 12, uint32(r.N(2))) // edit mask
	case 3:
		w.propU32(b, 13, uint32(r.N(2))) // show mask
	case 4:
		w.propU32(b, 35, uint32(r.N(4))) // composite mode
	case 5:
		w.propU32(b, 36, uint32(r.N(3))) // composite space
	case 6:
		w.propU32(b, 37, uint32(r.N(3))) // blend space
	case 7:
		w.prop(b, 2, nil) // active layer
	case 8:
		w.prop(b, 5, func(b *block) { w.ptr(b, nil) }) // floating selection
	}
}

func (w *builder) imageNoise(b *block) {
	r := w.r

	switch r.N(9) {
	case 0:
		w.prop(b, 19, func(b *block) { b.f32(72); b.f32(300) }) // resolution
	case 1:
		w.propU32(b, 22, uint32(r.N(5))) // unit
	case 2:
		w.prop(b, 18, func(b *block) { // guides
			for n := r.N(4); n > 0; n-- {
				b.u32("value", uint32(r.N(50)))
				b.u8("value", uint8(1+r.N(2)))
			}
		})
	case 3:
		w.prop(b, 39, func(b *block) { // sample points
			for n := r.N(3); n > 0; n-- {
				for i := 0; i < 5; i++ {
					b.u32("value", uint32(r.N(50)))
				}
			}
		})
	case 4:
		w.prop(b, 27, func(b *block) { // old sample points
			for n := r.N(3); n > 0; n-- {
				b.u32("value", uint32(r.N(50)))
				b.u32("value", uint32(r.N(50)))
			}
		})
	case 5:
		w.prop(b, 24, func(b *block) { // user unit
			b.f32(2.5)
			b.u32("value", uint32(r.N(4)))

			for i := 0; i < 5; i++ {
				if r.N(3) == 0 {
					b.noStr()
				} else {
					b.str([]string{"", "inch", "x"}[r.N(3)])
				}
			}
		})
	case 6:
		w.prop(b, 23, func(b *block) { // paths
			n := r.N(3)

			b.u32("value", 0)
			b.u32("count", uint32(n))

			for ; n > 0; n-- {
				b.str("path")
				b.u32("value", uint32(r.N(2)))

				closed := r.N(2)

				b.u8("value", uint8(2+2*closed))
				b.u32("value", uint32(closed))

				np, v := r.N(4), 1+r.N(3)

				b.u32("count", uint32(np))
				b.u32("value", uint32(v))

				if v > 1 {
					b.u32("value", 0)
				}

				if v > 2 {
					b.u32("value", 7)
				}

				for ; np > 0; np-- {
					b.u32("value", uint32(r.N(3)))
					b.f32(1)
					b.f32(2)
				}
			}
		})
	case 7:
		w.prop(b, 25, func(b *block) { // vectors
			n := r.N(3)

			b.u32("value", 1)
			b.u32("value", 0)
			b.u32("count", uint32(n))

			for ; n > 0; n-- {
				b.str("vector")
				b.u32("value", 3)
				b.u32("value", uint32(r.N(2)))
				b.u32("value", uint32(r.N(2)))

				m, k := r.N(2), r.N(3)

				b.u32("count", uint32(m))
				b.u32("count", uint32(k))

				for ; m > 0; m-- {
					b.str("p")
					b.u32("value", 0)
					b.u32("datalen", 3)

					b.b = append(b.b, 1, 2, 3)
				}

				for ; k > 0; k-- {
					b.u32("value", 1)
					b.u32("value", uint32(r.N(2)))

					nf, np := 2+r.N(5), r.N(4)

					b.u32("count", uint32(nf))
					b.u32("count", uint32(np))

					for ; np > 0; np-- {
						b.u32("value", 0)

						for i := 0; i < nf; i++ {
							b.f32(1)
						}
					}
				}
			}
		})
	case 8:
		if w.f.base != baseIndexed {
			// To be ignored in pictures of other kinds.
			w.prop(b, 1, func(b *block) {
				n := r.N(5)

				b.u32("count", uint32(n))

				b.b = append(b.b, make([]byte, 3*n)...)
			})
		}
	}
}

func (w *builder) layer(fl flat) *block {
	n, f, r := fl.n, w.f, w.r
	wd, ht := n.Size()
	at := fl.at

	if e, ok := f.extents[n]; ok {
		wd, ht, at = e.Dx(), e.Dy(), e.Min
	}

	b := w.block()
	alpha := n.Group || hasAlpha(n.Pix.Kind)

	b.u32("width", uint32(wd))
	b.u32("height", uint32(ht))
	b.u32("type", uint32(f.base)*2+boolean(alpha))

	if n.Name == "" && r.N(2) == 1 {
		b.noStr()
	} else {
		b.str(n.Name)
	}

	parts := []func(){
		func() { w.noise(b, true) },
		func() {
			w.propU32(b, 6, uint32(255-n.T))

			if !w.plain && f.version >= 10 {
				w.prop(b, 33, func(b *block) { b.f32(float32(255-n.T) / 255) })
			}
		},
		func() { w.propU32(b, 8, boolean(!n.Hidden)) },
		func() {
			w.prop(b, 15, func(b *block) {
				b.u32("offset", uint32(int32(at.X)))
				b.u32("offset", uint32(int32(at.Y)))
			})
		},
		func() {
			nums := modeNumbers[n.Mode]
			w.propU32(b, 7, nums[r.N(len(nums))])
		},
	}

	if n.Group {
		parts = append(parts, func() { w.prop(b, 29, nil) })

		if r.N(2) == 1 {
			parts = append(parts, func() { w.propU32(b, 31, uint32(r.N(2))) })
		}
	}

	if len(fl.path) > 1 {
		parts = append(parts, func() {
			w.prop(b, 30, func(b *block) {
				for _, p := range fl.path {
					b.u32("path", p)
				}
			})
		})
	}

	if n.Text != nil {
		parts = append(parts, func() {
			w.propU32(b, 26, 1)
			w.prop(b, 21, func(b *block) {
				if r.N(3) == 2 {
					b.str("other")
					b.u32("value", 0)
					b.u32("datalen", 2)

					b.b = append(b.b, 1, 2)
				}

				s := w.textParasite(n.Text, wd, ht)

				b.str("gimp-text-layer")
				b.u32("value", 1)
				b.u32("datalen", uint32(len(s)))
				b.note(len(s), "text")

				b.b = append(b.b, s...)
			})
		})
	}

	// Properties come in any order. Text is not followed by other parasites.
	if !w.plain {
		for i := len(parts) - 1; i > 1; i-- {
			j := 1 + r.N(i)
			parts[i], parts[j] = parts[j], parts[i]
		}
	}

	for _, p := range parts {
		p()
	}

	w.prop(b, 0, nil)

	var pl [][]byte

	if n.Group {
		pl = make([][]byte, map[int]int{baseRGB: 4, baseGray: 2, baseIndexed: 2}[f.base])
		for i := range pl {
			pl[i] = make([]byte, wd*ht)
		}
	} else {
		pl = planes(n.Pix, f.base, alpha)
	}

	w.ptr(b, w.hierarchy(wd, ht, pl))

	if n.Mask == nil {
		w.ptr(b, nil)
	} else {
		w.ptr(b, w.channel(n.Mask))
	}

	return b
}

func (w *builder) channel(m *hx.Pixels) *block {
	r := w.r
	b := w.block()

	b.u32("width", uint32(m.W))
	b.u32("height", uint32(m.H))
	b.str("mask")

	if !w.plain {
		if r.N(2) == 1 {
			w.propU32(b, 6, uint32(r.N(256)))
		}

		if r.N(2) == 1 {
			w.propU32(b, 8, 1)
		}

		if r.N(3) == 2 {
			w.prop(b, 16, func(b *block) { b.b = append(b.b, 1, 2, 3) })
		}

		if r.N(3) == 2 {
			w.propU32(b, 20, 9)
		}
	}

	w.prop(b, 0, nil)
	w.ptr(b, w.hierarchy(m.W, m.H, planes(m, baseGray, false)))

	return b
}

// build writes the file.
func (f *xfile) build(r *core.Run, plain bool) *built {
	w := &builder{r: r, f: f, plain: plain}
	head := w.block()
	id := "file"

	if f.version > 0 {
		id = fmt.Sprintf("v%03d", f.version)
	}

	head.note(14, "magic")

	head.b = append(head.b, "gimp xcf "+id+"\x00"...)

	head.u32("width", uint32(f.w))
	head.u32("height", uint32(f.h))
	head.u32("base", uint32(f.base))

	if f.version >= 4 {
		if f.version == 4 {
			head.u32("precision", 0)
		} else {
			head.u32("precision", 150)
		}
	}

	parts := []func(){
		func() { w.noise(head, false) },
		func() {
			if f.rle || r.N(2) == 1 {
				w.prop(head, 17, func(b *block) { b.u8("compression", uint8(boolean(f.rle))) })
			}
		},
		func() {
			if f.base == baseIndexed {
				w.prop(head, 1, func(b *block) {
					b.u32("count", uint32(len(f.pal)))

					for _, c := range f.pal {
						b.b = append(b.b, c.R, c.G, c.B)
					}
				})
			}
		},
		func() { w.noise(head, false) },
	}

	if !plain && r.N(2) == 1 {
		parts[0], parts[2] = parts[2], parts[0]
		parts[1], parts[3] = parts[3], parts[1]
	}

	for _, p := range parts {
		p()
	}

	w.prop(head, 0, nil)

	for _, fl := range flatten(f.nodes, image.Point{}, nil) {
		w.ptr(head, w.layer(fl))
	}

	w.ptr(head, nil)

	if !plain && r.N(4) == 3 { // a channel nobody reads
		w.ptr(head, w.channel(&hx.Pixels{W: 1, H: 1, P: make([]colorNRGBA, 1)}))
	}

	w.ptr(head, nil)

	out := new(built)
	order := w.blocks[1:]

	if !plain && r.N(2) == 1 {
		rng := hx.PRNG(r.Tape.Draw(core.Gen, 1<<32))

		for i := len(order) - 1; i > 0; i-- {
			j := rng.Next(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}

	gaps := !plain && r.N(4) == 3
	gap := hx.PRNG(5)
	holeBefore := -1

	if !plain && !f.compact && len(order) > 0 && r.N(5) == 4 {
		holeBefore = r.N(len(order))
		sizes := []int64{16<<20 - 10, 16 << 20, 17 << 20, 1 << 30, 1<<31 - 5, 1<<31 + 3, 4<<30 - 1<<20}

		if w.wide() {
			sizes = append(sizes, 5<<30, 1<<40)
		}

		out.hole = sizes[r.N(len(sizes))]
	}

	pos := int64(len(head.b))

	out.data = append(out.data, head.b...)
	placed := []*block{head}
	cuts := []int{0}

	for i, b := range order {
		if gaps {
			n := gap.Next(5)
			pos += int64(n)

			for ; n > 0; n-- {
				out.data = append(out.data, 0xAA)
			}
		}

		if i == holeBefore {
			out.holeAt = pos
			pos += out.hole
		}

		b.off = pos
		cuts = append(cuts, len(out.data))

		out.data = append(out.data, b.b...)
		pos += int64(len(b.b))
		placed = append(placed, b)
	}

	for i, b := range placed {
		out.blocks = append(out.blocks, b.off)

		for _, fx := range b.fix {
			if w.wide() {
				binary.BigEndian.PutUint64(out.data[cuts[i]+fx.at:], uint64(fx.dst.off))
			} else {
				binary.BigEndian.PutUint32(out.data[cuts[i]+fx.at:], uint32(fx.dst.off))
			}
		}

		for _, s := range b.spans {
			out.spans = append(out.spans, span{cuts[i] + s.off, s.n, s.label})
		}
	}

	return out
}
