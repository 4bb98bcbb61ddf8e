//go:build go1.25

package hxcf

import (
	"archive/zip"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"slices"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/core"
	"vimagination.zapto.org/limage/zzverif/hx"
)

func init() { hx.Scenarios["C19"] = c19 }

// What OpenRaster files of other programs consist of.
var (
	foreignKinds = []int{hx.KNRGBA, hx.KOpaque, hx.KGray, hx.KRGB, hx.KPaletted, hx.KGrayAlpha, hx.KPalettedAlpha, hx.KRGBA, hx.KNRGBA64, hx.KGray16, hx.KPalTrans}
	oraModes     = func() (m []limage.Composite) {
		for c := limage.CompositeNormal; c <= limage.CompositePassThrough; c++ {
			if _, ok := hx.OpNames[c]; ok {
				m = append(m, c)
			}
		}

		return m
	}()
)

// cel is a layer of a document that is being edited. What it shows is whatever
// the library gave; everything else is what was asked for.
type cel struct {
	name   string
	x, y   int // in the group
	w, h   int
	t      uint8
	mode   limage.Composite
	hidden bool
	group  bool
	kids   []*cel
	img    image.Image
	token  *int // copies have the same, and share their image
}

// take makes cels of layers, without those of which there is nothing.
func take(im limage.Image) []*cel {
	var out []*cel

	for _, l := range im {
		c := &cel{
			name:  l.Name,
			token: new(int),
			x:     l.LayerBounds.Min.X, y: l.LayerBounds.Min.Y,
			w: l.LayerBounds.Dx(), h: l.LayerBounds.Dy(),
			t:      l.Transparency,
			mode:   l.Mode,
			hidden: l.Invisible,
		}
		img := l.Image

		switch m := img.(type) { // the mask of a group is taken away
		case limage.MaskedImage:
			if _, ok := stack(m.Image); ok {
				img = m.Image
			}
		case *limage.MaskedImage:
			if _, ok := stack(m.Image); ok {
				img = m.Image
			}
		}

		if g, ok := stack(img); ok {
			c.group = true

			if c.kids = take(g); len(c.kids) == 0 {
				continue
			}
		} else if c.img = img; c.w <= 0 || c.h <= 0 || img == nil || img.Bounds().Empty() {
			continue
		}

		out = append(out, c)
	}

	return out
}

func stack(im image.Image) (limage.Image, bool) {
	switch im := im.(type) {
	case limage.Image:
		return im, true
	case *limage.Image:
		return *im, true
	}

	return nil, false
}

// fit makes groups as large as what is in them.
func fit(cels []*cel) {
	for _, c := range cels {
		if !c.group {
			continue
		}

		fit(c.kids)

		x, y := 0, 0
		for _, k := range c.kids {
			x, y = min(x, k.x), min(y, k.y)
		}

		c.x, c.y, c.w, c.h = c.x+x, c.y+y, 0, 0

		for _, k := range c.kids {
			k.x, k.y = k.x-x, k.y-y
			c.w, c.h = max(c.w, k.x+k.w), max(c.h, k.y+k.h)
		}
	}
}

// layers is the picture that the cels make, with what they show now if frozen.
func layers(cels []*cel, still bool) limage.Image {
	im := make(limage.Image, len(cels))

	for i, c := range cels {
		im[i] = limage.Layer{
			Name:         c.name,
			LayerBounds:  image.Rect(c.x, c.y, c.x+c.w, c.y+c.h),
			Mode:         c.mode,
			Invisible:    c.hidden,
			Transparency: c.t,
		}

		switch {
		case c.group:
			im[i].Image = layers(c.kids, still)
		case still:
			im[i].Image = freeze(c)
		default:
			im[i].Image = c.img
		}
	}

	return im
}

// frozen is what an image showed at some time.
type frozen struct {
	rect image.Rectangle
	pix  []color.Color
}

func (f *frozen) ColorModel() color.Model { return color.NRGBA64Model }
func (f *frozen) Bounds() image.Rectangle { return f.rect }
func (f *frozen) At(x, y int) color.Color {
	if !(image.Point{X: x, Y: y}).In(f.rect) {
		return color.NRGBA{}
	}

	return f.pix[(y-f.rect.Min.Y)*f.rect.Dx()+x-f.rect.Min.X]
}

func freeze(c *cel) image.Image {
	o := c.img.Bounds().Min
	f := &frozen{rect: image.Rect(o.X, o.Y, o.X+c.w, o.Y+c.h)}

	for y := 0; y < c.h; y++ {
		for x := 0; x < c.w; x++ {
			f.pix = append(f.pix, c.img.At(o.X+x, o.Y+y))
		}
	}

	if _, _, text, err := leaf(c.img); err == nil && text != nil {
		return limage.Text{Image: f, TextData: text}
	}

	return f
}

// all lists the cels with pixels.
func all(cels []*cel) []*cel {
	var out []*cel

	for _, c := range cels {
		if c.group {
			out = append(out, all(c.kids)...)
		} else {
			out = append(out, c)
		}
	}

	return out
}

// stacks lists the stacks of cels, the document first.
func stacks(cels *[]*cel) []*[]*cel {
	out := []*[]*cel{cels}

	for _, c := range *cels {
		if c.group {
			out = append(out, stacks(&c.kids)...)
		}
	}

	return out
}

// prune removes empty groups.
func prune(cels []*cel) []*cel {
	var out []*cel

	for _, c := range cels {
		if c.group {
			if c.kids = prune(c.kids); len(c.kids) == 0 {
				continue
			}
		}

		out = append(out, c)
	}

	return out
}

func clone(c *cel) *cel {
	d := *c
	d.kids = nil

	for _, k := range c.kids {
		d.kids = append(d.kids, clone(k))
	}

	return &d
}

// saved is a file of the session.
type saved struct {
	xcf    bool
	data   []byte
	exp    limage.Image // what it holds, frozen
	canvas image.Rectangle
	cmp    moved
}

// kept compares colours with those that an XCF picture keeps of them.
func kept(m color.Model) moved {
	var pal []color.Color

	gray := false

	switch p := m.(type) {
	case color.Palette:
		pal = slices.Clone(p)
	case lcolor.AlphaPalette:
		pal = slices.Clone(p)
	default:
		gray = m == color.GrayModel || m == color.Gray16Model || m == lcolor.GrayAlphaModel
	}

	cmp := moved{want: alike, modes: func(m limage.Composite) (limage.Composite, bool) {
		_, ok := modeNumbers[m]

		return m, ok
	}}

	// slack is how far colours get moved by premultiplication.
	slack := func(ev, gv [4]float64, e, got color.Color) (float64, error) {
		if math.Abs(ev[3]-gv[3]) > 257 {
			return 0, fmt.Errorf("alpha of %v, not of %v", got, e)
		}

		if a := math.Min(ev[3], gv[3]); a < 257 {
			return math.Inf(1), nil
		} else if a == 0xffff {
			return 257, nil
		} else {
			return 257 + 65535*65535/(255*a), nil
		}
	}

	switch {
	case gray:
		cmp.want = func(e, got color.Color) error {
			ev, _ := straight(e)
			gv, _ := straight(got)

			tol, err := slack(ev, gv, e, got)
			if err == nil && (math.Abs(luma(ev)-gv[0]) > tol+257 || gv[0] != gv[1] || gv[1] != gv[2]) {
				err = fmt.Errorf("%v, not the gray of %v", got, e)
			}

			return err
		}
	case pal != nil:
		cmp.modes = func(m limage.Composite) (limage.Composite, bool) {
			return m, m == limage.CompositeNormal || m == limage.CompositeDissolve || m == limage.CompositeBehind
		}
		cmp.want = func(e, got color.Color) error {
			ev, _ := straight(e)
			gv, _ := straight(got)

			tol, err := slack(ev, gv, e, got)
			if err != nil {
				return err
			}

			best, mine := math.Inf(1), math.Inf(1)

			for _, c := range pal {
				n := color.NRGBAModel.Convert(c).(color.NRGBA)
				n.A = 255
				cv, _ := straight(n)
				d := 0.0

				for i := range 3 {
					d += (cv[i] - ev[i]) * (cv[i] - ev[i])
				}

				best = math.Min(best, d)

				if cv[0] == gv[0] && cv[1] == gv[1] && cv[2] == gv[2] {
					mine = math.Min(mine, d)
				}
			}

			if math.IsInf(tol, 1) {
				return nil
			}

			if math.IsInf(mine, 1) {
				return fmt.Errorf("%v is not in the palette", got)
			} else if math.Sqrt(mine) > math.Sqrt(best)+2*tol*math.Sqrt(3)+4 {
				return fmt.Errorf("%v is not the nearest to %v", got, e)
			}

			return nil
		}
	}

	return cmp
}

type session struct {
	r     *core.Run
	docs  [][]*cel
	files []*saved
	log   []string
	last  hx.WriterAt
	size  map[bool]struct {
		ops   int
		bytes int64
	}
}

func (s *session) say(format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	s.log = append(s.log, m)
	s.r.Event("%s", m)
}

func (s *session) story() string {
	l := s.log
	if len(l) > 12 {
		l = l[len(l)-12:]
	}

	return strings.Join(l, "; ")
}

// fresh makes a document.
func (s *session) fresh() []*cel {
	r := s.r

	switch r.N(6) {
	case 0: // from elsewhere
		f := genFile(r, false)
		deferred := r.N(2) == 1

		im, err := decode(r, f.reader(r, f.build(r, r.N(4) > 0), hx.ReadPlan{}), deferred)
		if r.Done() || err != nil { // judged by other properties
			return nil
		}

		s.say("open foreign XCF (deferred %v)", deferred)

		return take(im)
	case 1:
		if im, ok := s.foreign(); ok {
			return take(im)
		}

		return nil
	}

	o := genOpts{maxTop: 3, depth: 1, text: true, mask: true, modes: modes, bottom: true, forms: false}
	kinds := [][]int{rgbKinds, grayKinds, palKinds, {hx.KNRGBA}, {hx.KRGB, hx.KGrayAlpha, hx.KPalettedAlpha}}[r.N(5)]
	o.kind = func(bool) int { return kinds[r.N(len(kinds))] }

	if r.N(2) == 1 {
		o.pal = hx.Palette(r)
	}

	nodes := genNodes(r, o, o.depth, o.maxTop, image.Point{})

	s.say("new %s", hx.Describe(nodes))

	return take(hx.Layers(nodes))
}

// foreign reads an OpenRaster file of another program.
func (s *session) foreign() (im limage.Image, ok bool) {
	r := s.r
	o := genOpts{maxTop: 4, depth: 2, modes: oraModes, forms: true}
	o.kind = func(bool) int { return foreignKinds[r.N(len(foreignKinds))] }
	nodes := genNodes(r, o, o.depth, o.maxTop, image.Point{})
	c := hx.Canvas(nodes)

	if c.Max.X <= 0 || c.Max.Y <= 0 {
		return nil, false
	}

	w, h := max(1, c.Max.X-r.N(4)), max(1, c.Max.Y-r.N(4)) // may cut layers
	data := hx.WriteORA(r, nodes, w, h)

	zr, err := zip.NewReader(hx.NewReaderAt(r, data, hx.ReadPlan{EOF: r.N(2) == 1}), int64(len(data)))
	if err != nil {
		panic(err)
	}

	r.Call("Decode", func() { im, err = ora.Decode(zr) })

	if r.Done() || err != nil { // judged by other properties
		return nil, false
	}

	s.say("open foreign ORA: %s", hx.Describe(nodes))
	r.Probe("foreign-ora")

	return im, true
}

func (s *session) edit() {
	r := s.r
	d := r.N(len(s.docs))
	doc := &s.docs[d]
	places := stacks(doc)
	from := places[r.N(len(places))]

	if len(*from) == 0 {
		*doc = append(*doc, s.fresh()...)

		return
	}

	i := r.N(len(*from))
	c := (*from)[i]

	switch r.N(16) {
	case 0, 1: // elsewhere, in this document or another one
		e := r.N(len(s.docs))
		*from = append((*from)[:i:i], (*from)[i+1:]...)
		places = stacks(&s.docs[e])
		to := places[r.N(len(places))]
		at := r.N(len(*to) + 1)
		*to = append((*to)[:at:at], append([]*cel{c}, (*to)[at:]...)...)

		s.say("move %q from %d to %d", c.name, d, e)
	case 2, 9, 10:
		e := r.N(len(s.docs))
		s.docs[e] = append([]*cel{clone(c)}, s.docs[e]...)

		s.say("copy %q from %d to %d", c.name, d, e)
	case 3:
		(*from)[i] = &cel{name: hx.GenName(r), x: r.N(5), y: r.N(5), group: true, kids: []*cel{c}}

		s.say("group %q", c.name)
	case 4:
		*from = append((*from)[:i:i], (*from)[i+1:]...)

		s.say("delete %q", c.name)
	case 5:
		c.name = hx.GenName(r)
		c.hidden = !c.hidden

		s.say("rename to %q", c.name)
	case 6:
		c.t = uint8(r.N(256))
		c.mode = modes[r.N(len(modes))]

		s.say("%q: transparency %d, mode %d", c.name, c.t, c.mode)
	case 7:
		c.x, c.y = c.x+r.N(9)-4, c.y+r.N(9)-4

		s.say("%q to %d,%d", c.name, c.x, c.y)
	case 8:
		*doc = append(s.fresh(), *doc...)
	case 11:
		s.recolour(*doc)
	default:
		s.paint(*doc)
	}

	s.docs[d] = prune(s.docs[d])

	for _, doc := range s.docs {
		fit(doc)
	}
}

// recolour changes a colour of a palette.
func (s *session) recolour(doc []*cel) {
	r := s.r

	for _, c := range all(doc) {
		px, _, _, _ := leaf(c.img)
		v := lcolor.RGB{R: uint8(r.N(256)), G: uint8(r.N(256)), B: uint8(r.N(256))}

		switch px := px.(type) {
		case *limage.PalettedAlpha:
			px.Palette[r.N(len(px.Palette))] = v
		case *image.Paletted:
			px.Palette[r.N(len(px.Palette))] = v
		default:
			continue
		}

		s.say("recolour %q (%T)", c.name, px)

		return
	}
}

// paint draws on a layer. Layers that are not copies of it do not change.
func (s *session) paint(doc []*cel) {
	r := s.r

	var can []*cel

	for _, c := range all(doc) {
		px, _, _, _ := leaf(c.img)
		if _, ok := px.(draw.Image); ok {
			can = append(can, c)
		}
	}

	if len(can) == 0 {
		return
	}

	c := can[r.N(len(can))]
	px, _, _, _ := leaf(c.img)
	o := px.Bounds().Min

	var (
		others []*cel
		before []limage.Image
	)

	for _, d := range s.docs {
		for _, k := range all(d) {
			if k.token != c.token {
				others = append(others, k)
			}
		}
	}

	look(r, func() error {
		for _, k := range others {
			before = append(before, layers([]*cel{k}, true))
		}

		for range 1 + r.N(6) {
			x, y := o.X+r.N(c.w), o.Y+r.N(c.h)
			v := color.NRGBA{uint8(r.N(256)), uint8(r.N(256)), uint8(r.N(256)), []uint8{255, 128, 0}[r.N(3)]}

			px.(draw.Image).Set(x, y, v)
		}

		return nil
	})

	if r.Done() {
		return
	}

	s.say("paint on %q (%T)", c.name, px)

	r.Probe("painted")

	exactly := moved{
		want: func(e, got color.Color) error {
			if e != got {
				return fmt.Errorf("%v, not %v", got, e)
			}

			return nil
		},
		modes: func(m limage.Composite) (limage.Composite, bool) { return m, true },
	}

	var diff error

	look(r, func() error {
		for i, k := range others {
			b := image.Rect(k.x, k.y, k.x+k.w, k.y+k.h)
			if err := exactly.layers(layers([]*cel{k}, true), before[i], image.Point{}, image.Point{}, b, k.name); err != nil && diff == nil {
				diff = err
			}
		}

		return nil
	})

	if diff != nil && !r.Done() {
		r.Violate("paints-elsewhere", "drawing on one layer changes another: %v (%s)", diff, s.story())
	}
}

// settle makes the document one that both formats can hold.
func settle(doc []*cel) {
	fit(doc)

	if l := doc[len(doc)-1]; l.mode != limage.CompositeDissolve {
		l.mode = limage.CompositeNormal
	}
}

// write encodes a document over what is in a file.
func (s *session) write(im limage.Image, asXCF bool, old []byte, plan hx.WritePlan) (data []byte, fault, err error, crashed bool) {
	r := s.r

	if asXCF {
		w, err, res := encodeOver(r, im, plan, old)

		s.size[true] = struct {
			ops   int
			bytes int64
		}{w.Ops, w.Bytes}

		return w.Data, w.Err, err, res.Crashed
	}

	w := hx.NewWriter(r, plan)
	res := r.Call("Encode", func() { err = ora.Encode(w, im) })

	s.size[false] = struct {
		ops   int
		bytes int64
	}{w.Ops, w.Bytes}

	return w.Data, w.Err, err, res.Crashed
}

// frozenFile is a file that holds a document as it is now.
func (s *session) frozenFile(doc []*cel, asXCF bool) *saved {
	f := &saved{xcf: asXCF}

	look(s.r, func() error {
		im := layers(doc, false)
		f.exp = layers(doc, true)
		f.canvas = im.Bounds()
		f.cmp = moved{want: alike, modes: func(m limage.Composite) (limage.Composite, bool) {
			if named[m] {
				return m, true
			}

			return limage.CompositeNormal, true
		}}

		if asXCF {
			f.cmp = kept(im.ColorModel())
		}

		return nil
	})

	return f
}

func (s *session) save() {
	r := s.r
	d := r.N(len(s.docs))
	doc := s.docs[d]

	if len(doc) == 0 {
		return
	}

	settle(doc)

	im := layers(doc, false)

	if r.N(6) == 5 { // in both formats at once
		files := []*saved{s.frozenFile(doc, true), s.frozenFile(doc, false)}
		if r.Done() {
			return
		}

		s.say("save %d in both formats", d)

		fns := make([]func(), 2)

		for i, f := range files {
			fns[i] = func() {
				var err error

				f.data, _, err, _ = s.write(im, f.xcf, nil, hx.WritePlan{})
				if err != nil && !r.Done() {
					r.Violate("not-saved", "saving (XCF %v) in two formats at once failed: %v (%s)", f.xcf, err, s.story())
				}
			}
		}

		if r.Concurrent(fns...); !r.Done() {
			r.Probe("saved-together")
			s.files = append(s.files, files...)
		}

		return
	}

	f := s.frozenFile(doc, r.N(2) == 1)
	if r.Done() {
		return
	}

	at := r.N(len(s.files) + 1)

	var (
		old  []byte
		plan hx.WritePlan
	)

	if at < len(s.files) {
		old = s.files[at].data
	}

	if n := s.size[f.xcf]; r.FBool(3) {
		plan = hx.DrawWritePlan(r, n.ops, n.bytes, true)
	}

	var (
		fault, err error
		crashed    bool
	)

	f.data, fault, err, crashed = s.write(im, f.xcf, old, plan)
	if r.Done() {
		return
	}

	s.say("save %d as XCF %v in file %d: %v, crashed %v", d, f.xcf, at, err, crashed)

	switch {
	case !crashed && err != nil && fault == nil:
		r.Violate("not-saved", "saving (XCF %v) failed without a fault: %v (%s)", f.xcf, err, s.story())
	case !crashed && err == nil:
		r.Probe(fmt.Sprintf("saved-xcf-%v", f.xcf))

		if at < len(s.files) {
			s.files[at] = f
		} else {
			s.files = append(s.files, f)
		}
	case f.xcf && at < len(s.files): // was written over
		s.files = append(s.files[:at:at], s.files[at+1:]...)
	}

	if crashed { // only the files are left
		r.Probe("crashed")

		for i := range s.docs {
			s.docs[i] = nil

			if len(s.files) > 0 {
				s.docs[i] = s.load(s.files[r.N(len(s.files))])
			}

			if r.Done() {
				return
			}
		}
	}
}

// load reads a file and compares it with what it was made of.
func (s *session) load(f *saved) []*cel {
	r := s.r
	deferred := r.N(2) == 1
	plan := hx.ReadPlan{EOF: r.FBool(3)}

	if r.FBool(6) {
		plan = hx.DrawReadPlan(r, 40, int64(len(f.data)))
	}

	var (
		im  limage.Image
		err error
	)

	d := hx.NewReaderAt(r, f.data, plan)

	if f.xcf {
		im, err = decode(r, d, deferred)
	} else {
		var zr *zip.Reader

		if zr, err = zip.NewReader(d, int64(len(f.data))); err == nil {
			r.Call("Decode", func() { im, err = ora.Decode(zr) })
		}
	}

	if r.Done() {
		return nil
	}

	s.say("load (XCF %v, deferred %v): %v", f.xcf, deferred, err)

	if err != nil {
		if !d.Fired {
			r.Violate("not-readable", "a saved document does not load (XCF %v): %v (%s)", f.xcf, err, s.story())
		}

		return nil
	}

	r.Probe(fmt.Sprintf("loaded-xcf-%v", f.xcf))
	d.Data = nil // is not needed any more

	var diff error

	look(r, func() error {
		diff = f.cmp.layers(im, f.exp, image.Point{}, image.Point{}.Sub(f.canvas.Min), image.Rect(0, 0, f.canvas.Dx(), f.canvas.Dy()), "")
		if diff == nil && f.xcf {
			diff = sameTexts(im, f.exp)
		}

		return nil
	})

	if diff != nil && !r.Done() {
		r.Violate("document-differs", "a saved document loads otherwise (XCF %v, deferred %v): %v (%s)", f.xcf, deferred, diff, s.story())
	}

	return take(im)
}

// sameTexts compares the texts of pictures with the same layers.
func sameTexts(got, exp limage.Image) error {
	for i, e := range exp {
		if g, ok := e.Image.(limage.Image); ok {
			if err := sameTexts(got[i].Image.(limage.Image), g); err != nil {
				return err
			}

			continue
		}

		if got[i].LayerBounds.Empty() {
			continue
		}

		_, _, a, err1 := leaf(got[i].Image)
		_, _, b, err2 := leaf(e.Image)

		if err1 != nil || err2 != nil || (a == nil) != (b == nil) {
			return fmt.Errorf("layer %q has text: %v, not %v (%v)", e.Name, a != nil, b != nil, err1)
		} else if err := sameText(a, b); err != nil {
			return fmt.Errorf("layer %q: %w", e.Name, err)
		}
	}

	return nil
}

// c19 edits documents made of layers from everywhere, saves and loads them.
func c19(r *core.Run) {
	s := &session{r: r, size: make(map[bool]struct {
		ops   int
		bytes int64
	})}

	for range 1 + r.N(2) {
		s.docs = append(s.docs, s.fresh())
	}

	for i, n := 0, 4+r.N(22); i < n && !r.Done(); i++ {
		switch k := r.N(10); {
		case k < 5:
			s.edit()
		case k < 8:
			s.save()
		case len(s.files) > 0:
			if doc := s.load(s.files[r.N(len(s.files))]); !r.Done() && doc != nil {
				s.docs[r.N(len(s.docs))] = doc
			}
		}
	}

	for _, f := range s.files { // all of them hold what was saved in the end
		if r.Done() {
			return
		}

		if f != nil {
			s.load(f)
		}
	}
}
