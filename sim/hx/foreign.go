//go:build go1.25

package hx

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"io"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/core"
)

// OpNames are the names OpenRaster has for blend modes.
var OpNames = map[limage.Composite]string{
	limage.CompositeNormal:          "svg:src-over",
	limage.CompositeMultiply:        "svg:multiply",
	limage.CompositeScreen:          "svg:screen",
	limage.CompositeOverlay:         "svg:overlay",
	limage.CompositeDarkenOnly:      "svg:darken",
	limage.CompositeLightenOnly:     "svg:lighten",
	limage.CompositeDodge:           "svg:color-dodge",
	limage.CompositeBurn:            "svg:color-burn",
	limage.CompositeHardLight:       "svg:hard-light",
	limage.CompositeSoftLight:       "svg:soft-light",
	limage.CompositeDifference:      "svg:difference",
	limage.CompositeColor:           "svg:color",
	limage.CompositeLuminosity:      "svg:luminosity",
	limage.CompositeHue:             "svg:hue",
	limage.CompositeSaturation:      "svg:saturation",
	limage.CompositePlus:            "svg:plus",
	limage.CompositeDestinationIn:   "svg:dst-in",
	limage.CompositeDestinationOut:  "svg:dst-out",
	limage.CompositeSourceAtop:      "svg:src-atop",
	limage.CompositeDestinationAtop: "svg:dst-atop",
}

// Unknown hides what an image is, and what it says of itself besides colours.
type Unknown struct{ image.Image }

// ColorModel is one with alpha, as the colours of an image made of others need
// not be those of the first.
func (u Unknown) ColorModel() color.Model {
	switch m := u.Image.ColorModel(); m {
	case color.GrayModel:
		return color.NRGBAModel
	case color.Gray16Model:
		return color.NRGBA64Model
	default:
		return m
	}
}

// Look is the image of a layer as an encoder sees it: in text or with a mask, it
// is no longer of any type encoders know.
func Look(n *Node) image.Image {
	if n.Text != nil || n.Mask != nil {
		return Unknown{n.Content()}
	}

	return n.Img
}

// WriteORA writes a picture the way another program may: different order
// and compression of entries, other entries and elements, other notations.
func WriteORA(r *core.Run, nodes []*Node, w, h int) []byte {
	var buf bytes.Buffer

	zw := zip.NewWriter(&buf)
	method := func() uint16 {
		if r.N(2) == 0 {
			return zip.Deflate
		}

		return zip.Store
	}
	raw, comment := r.N(3) == 2, r.N(4) == 3
	put := func(name string, m uint16, b []byte) {
		h := &zip.FileHeader{Name: name, Method: m}

		if comment {
			h.Comment = "c"
			h.Extra = []byte{0xfe, 0xca, 4, 0, 1, 2, 3, 4}
		}

		var (
			w   io.Writer
			err error
		)

		if raw { // sizes in front of the data and not after it
			z := b

			if m == zip.Deflate {
				var zb bytes.Buffer

				fw, _ := flate.NewWriter(&zb, r.N(10))
				fw.Write(b)
				fw.Close()

				z = zb.Bytes()
			}

			h.CRC32, h.CompressedSize64, h.UncompressedSize64 = crc32.ChecksumIEEE(b), uint64(len(z)), uint64(len(b))
			b = z
			w, err = zw.CreateRaw(h)
		} else {
			w, err = zw.CreateHeader(h)
		}

		if err == nil {
			_, err = w.Write(b)
		}

		if err != nil {
			panic(err)
		}
	}

	if comment {
		zw.SetComment("made by another program")
	}

	put("mimetype", zip.Store, []byte("image/openraster"))

	var (
		sb   strings.Builder
		num  int
		walk func(nodes []*Node, ind string)
	)

	type entry struct {
		name string
		data []byte
	}

	var entries []entry

	sources := map[*Pixels]string{} // layers may share their image
	files := []string{"data/layer%d.png", "data/%03d.PNG", "%d", "data/a b/ü%d.png", "data/.%d.png.png"}[r.N(5)]
	cased := files != "%d" && r.N(4) == 3
	extra := r.N(3) == 2
	refs := r.N(3) == 2
	esc := func(s string) string {
		var b bytes.Buffer

		if refs { // as references to characters
			for _, c := range s {
				fmt.Fprintf(&b, []string{"&#%d;", "&#x%X;"}[r.N(2)], c)
			}

			return b.String()
		}

		xml.EscapeText(&b, []byte(s))

		return b.String()
	}

	walk = func(nodes []*Node, ind string) {
		for _, n := range nodes {
			if extra && r.N(3) == 0 {
				sb.WriteString(ind + "<note kind=\"x\"><layer src=\"none\"/>text</note><!-- c -->\n")
			}

			tag := "layer"
			if n.Group {
				tag = "stack"
			}

			sb.WriteString(ind + "<" + tag)

			if extra && r.N(3) == 0 {
				sb.WriteString(" selected=\"true\" edit-locked='false'")
			}

			if extra && r.N(3) == 0 { // of the program's own, declared here or further up
				sb.WriteString([]string{
					" app:name=\"other\" app:x='7' app:opacity=\"0\"",
					" xmlns:name=\"urn:name\" xmlns:y=\"urn:y\" xmlns:src=\"urn:src\"",
					" app:visibility=\"hidden\" app:composite-op=\"svg:multiply\" app:y=\"here\"",
				}[r.N(3)])
			}

			if n.X != 0 || r.N(3) > 0 {
				fmt.Fprintf(&sb, " x='%d'", n.X)
			}

			if n.Y != 0 || r.N(3) > 0 {
				fmt.Fprintf(&sb, "\n\ty = \"%d\"", n.Y)
			}

			if n.Name != "" || r.N(2) == 0 {
				fmt.Fprintf(&sb, " name=\"%s\"", esc(n.Name))
			}

			if n.T != 0 || r.N(2) == 0 {
				form := []byte{'f', 'f', 'e', 'g'}[r.N(4)]
				fmt.Fprintf(&sb, " opacity=\"%s\"", strconv.FormatFloat(float64(255-n.T)/255, form, 5+r.N(8), 64))
			}

			if n.Hidden {
				sb.WriteString(" visibility=\"hidden\"")
			} else if r.N(2) == 0 {
				sb.WriteString(" visibility=\"visible\"")
			}

			if n.Mode != 0 || r.N(2) == 0 {
				fmt.Fprintf(&sb, " composite-op=\"%s\"", OpNames[n.Mode])
			}

			if n.Group {
				sb.WriteString(" isolation=\"auto\">\n")
				walk(n.Kids, ind+"  ")
				sb.WriteString(ind + "</stack>\n")

				continue
			}

			name, ok := sources[n.Pix]
			if !ok {
				name = fmt.Sprintf(files, num)

				if cased { // names that differ in nothing but case
					name = fmt.Sprintf(files, num/2)

					if num%2 == 1 {
						name = strings.Map(func(c rune) rune {
							if unicode.IsUpper(c) {
								return unicode.ToLower(c)
							}

							return unicode.ToUpper(c)
						}, name)
					}
				}

				num++

				var pb bytes.Buffer

				if err := png.Encode(&pb, Look(n)); err != nil {
					panic(err)
				}

				entries = append(entries, entry{name, pb.Bytes()})
				sources[n.Pix] = name
			}

			fmt.Fprintf(&sb, " src=\"%s\"", name)

			if extra && r.N(4) == 0 {
				sb.WriteString(" app:src=\"none\" app:name='later'")
			}

			if extra {
				sb.WriteString([]string{"><note/></layer>\n", "><note><stack><layer/></stack></note></layer>\n", "><![CDATA[<layer>]]><?x y?></layer>\n"}[r.N(3)])
			} else {
				sb.WriteString("/>\n")
			}
		}
	}

	sb.WriteString("<?xml version='1.0' encoding='UTF-8'?>\n")

	if extra {
		sb.WriteString([]string{"", "<!-- <image w=\"1\" h=\"1\"/> -->\n", "<!DOCTYPE image>\n", "<?app <stack> ?>\n"}[r.N(4)])
	}

	fmt.Fprintf(&sb, "<image version=\"0.0.3\" h=\"%d\" w=\"%d\" xres=\"72\"", h, w)

	if extra {
		sb.WriteString([]string{"", " xmlns:app=\"urn:app\"", " app:w=\"1\" app:h='x' xmlns:app=\"urn:app\""}[r.N(3)])
	}

	sb.WriteString(">\n")

	if extra {
		sb.WriteString("  <note><stack/></note>\n")
	}

	sb.WriteString([]string{"  <stack>\n", "  <stack x=\"0\" y=\"0\" name=\"root\" opacity=\"1.0\" visibility=\"visible\">\n"}[r.N(2)])
	walk(nodes, "    ")
	sb.WriteString("  </stack>\n</image>\n")

	// A long stack description is read in more than one piece.
	if r.N(3) == 2 {
		sb.WriteString("<!--" + strings.Repeat(" filler", 1+r.N(3000)) + "-->\n")
	}

	first := r.N(2) == 0
	if first {
		put("stack.xml", method(), []byte(sb.String()))
	}

	if extra && r.N(2) == 1 { // in another order
		slices.Reverse(entries)
	}

	for _, e := range entries {
		put(e.name, method(), e.data)
	}

	if extra {
		put("extra/notes.txt", method(), []byte("notes"))
	}

	if !first {
		put("stack.xml", method(), []byte(sb.String()))
	}

	put("mergedimage.png", method(), nil)

	if err := zw.Close(); err != nil {
		panic(err)
	}

	return buf.Bytes()
}
