From c7b5d80350fed781208abc480c410c9acc8cd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:09 +0000
Subject: [PATCH 01/62] fix: report errors from closing the archive in
 ora.Encode

---
 ora/encode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..4317ec3 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -14,14 +14,19 @@ import (
 const mimetypeStr = "image/openraster"
 
 // Encode encodes the given image as an ORA file to the given Writer.
-func Encode(w io.Writer, m image.Image) error {
+func Encode(w io.Writer, m image.Image) (err error) {
 	lim := toLayer(m)
 	b := m.Bounds()
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
+
+	defer func() {
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
-- 
2.43.0


From e1d7699475993c2f8b6fac041ba44d6c29c04ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:09 +0000
Subject: [PATCH 02/62] fix: write ora layer opacity as opacity, and read it
 back exactly

---
 ora/encode.go | 2 +-
 ora/stack.go  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 4317ec3..2588841 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -200,7 +200,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
diff --git a/ora/stack.go b/ora/stack.go
index ef75333..6e8f10f 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"math"
 	"strconv"
 
 	"vimagination.zapto.org/limage"
@@ -125,7 +126,7 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			l.Transparency = uint8(math.Round(255 * (1 - o)))
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From b8616c9df48d8cafe3cc7e00b67743f2f0a12a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:59 +0000
Subject: [PATCH 03/62] fix: write single images as a stack of one layer in
 ora.Encode

---
 ora/encode.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 2588841..49305e1 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -77,19 +77,37 @@ func toLayer(m image.Image) limage.Layer {
 	switch im := m.(type) {
 	case limage.Layer:
 		return limage.Layer{
-			Image: im.Image,
+			Image: toGroup(im.Image),
 		}
 	case *limage.Layer:
 		return limage.Layer{
-			Image: im.Image,
+			Image: toGroup(im.Image),
 		}
 	default:
 		return limage.Layer{
-			Image: m,
+			Image: toGroup(m),
 		}
 	}
 }
 
+// toGroup makes sure that there is a group at the top of the image, as the
+// format requires.
+func toGroup(m image.Image) image.Image {
+	switch m.(type) {
+	case limage.Image, *limage.Image:
+		return m
+	}
+
+	b := m.Bounds()
+
+	return limage.Image{
+		{
+			LayerBounds: b.Sub(b.Min),
+			Image:       m,
+		},
+	}
+}
+
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	var fw io.Writer
 
-- 
2.43.0


From 43bb60a03db48a3030b8075039d6b94af0336d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:59 +0000
Subject: [PATCH 04/62] fix: place ora layers relative to the top left of the
 canvas

---
 ora/encode.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ora/encode.go b/ora/encode.go
index 49305e1..068282d 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -83,6 +83,14 @@ func toLayer(m image.Image) limage.Layer {
 		return limage.Layer{
 			Image: toGroup(im.Image),
 		}
+	case limage.Image:
+		return limage.Layer{
+			Image: atOrigin(im),
+		}
+	case *limage.Image:
+		return limage.Layer{
+			Image: atOrigin(*im),
+		}
 	default:
 		return limage.Layer{
 			Image: toGroup(m),
@@ -90,6 +98,20 @@ func toLayer(m image.Image) limage.Layer {
 	}
 }
 
+// atOrigin moves the layers so that the canvas starts at the origin, which is
+// where the format has it.
+func atOrigin(m limage.Image) limage.Image {
+	b := m.Bounds().Min
+	moved := make(limage.Image, len(m))
+
+	for n, l := range m {
+		l.LayerBounds = l.LayerBounds.Sub(b)
+		moved[n] = l
+	}
+
+	return moved
+}
+
 // toGroup makes sure that there is a group at the top of the image, as the
 // format requires.
 func toGroup(m image.Image) image.Image {
-- 
2.43.0


From 20e19b97566e273abeba08de9cc029f2e379f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:00 +0000
Subject: [PATCH 05/62] fix: keep negative positions of layers inside ora
 groups

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 068282d..0af0da8 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -217,14 +217,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 9f856144eea61de6580e082253c7f0519b6b3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:44 +0000
Subject: [PATCH 06/62] fix: clip nested ora layers to the canvas in their own
 coordinates

---
 ora/stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index 6e8f10f..3cb751f 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -94,7 +94,7 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits}.Sub(offset))
 
 	return l, nil
 }
-- 
2.43.0


From 046c3606c8dfb400248574780c93498050c7a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 07/62] fix: keep the position of ora groups whose layers do
 not start at its origin

---
 ora/stack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index 3cb751f..8dda1db 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -94,7 +94,13 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits}.Sub(offset))
+	b := l.Image.Bounds()
+
+	if s.Name.Local == "stack" { // positions inside of a group are relative to the group
+		b = image.Rectangle{Max: b.Max}
+	}
+
+	l.LayerBounds = b.Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits}.Sub(offset))
 
 	return l, nil
 }
-- 
2.43.0


From 87f486ddab37dcd73479abad0ce40b5cd663e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 08/62] fix: make the ora thumbnail show the picture scaled
 down

---
 ora/thumbnail.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..f1259b2 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -12,14 +12,22 @@ type thumbnail struct {
 
 func (t thumbnail) Bounds() image.Rectangle {
 	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
+	w := int(float64(b.Dx()) / t.scale)
+	h := int(float64(b.Dy()) / t.scale)
 
-	return b
+	if w == 0 {
+		w = 1
+	}
+
+	if h == 0 {
+		h = 1
+	}
+
+	return image.Rect(0, 0, w, h)
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b := t.Image.Bounds()
+
+	return t.Image.At(b.Min.X+int(float64(x)*t.scale), b.Min.Y+int(float64(y)*t.scale))
 }
-- 
2.43.0


From 833f7626967ae7c6f2de306761c5c662e9ba34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 09/62] fix: close ora layer entries on error, and check their
 checksums

---
 ora/stack.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 8dda1db..6dde946 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"io"
 	"math"
 	"strconv"
 
@@ -75,12 +76,16 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 				}
 
 				l.Image, _, err = image.Decode(fr)
-				if err != nil {
-					return l, err
+				if err == nil {
+					_, err = io.Copy(io.Discard, fr) // the checksum is compared at the end
 				}
 
 				fr.Close()
 
+				if err != nil {
+					return l, err
+				}
+
 				break
 			}
 		}
-- 
2.43.0


From 85ac37275081286109dac90cb609fbe393f94278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 10/62] fix: check the checksum of the ora stack description,
 and close it on error

---
 ora/decode.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..1b5448a 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -117,13 +117,17 @@ func DecodeConfig(zr *zip.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
+	defer s.Close()
+
 	d.x = xml.NewDecoder(s)
 
 	if err := d.getDimensions(); err != nil {
 		return image.Config{}, err
 	}
 
-	s.Close()
+	if _, err := io.Copy(io.Discard, s); err != nil { // the checksum is compared at the end
+		return image.Config{}, err
+	}
 
 	return image.Config{
 		ColorModel: color.NRGBAModel,
@@ -177,7 +181,16 @@ func Decode(zr *zip.Reader) (limage.Image, error) {
 		}
 	}
 
-	return d.readStack(image.Point{})
+	im, err := d.readStack(image.Point{})
+	if err != nil {
+		return nil, err
+	}
+
+	if _, err := io.Copy(io.Discard, s); err != nil { // the checksum is compared at the end
+		return nil, err
+	}
+
+	return im, nil
 }
 
 // Errors.
-- 
2.43.0


From 57950b9c820e3b88f1f019e4c89508bc0d4b770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 11/62] fix: unlock and forget the position when a seek or read
 fails in readerAt

---
 internal/bufioToReader.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..86def47 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -17,6 +17,9 @@ type bufioReader struct {
 	lastRuneSize int
 }
 
+// unknownPos is the position after an error: the next read has to seek.
+const unknownPos = -1
+
 type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
@@ -25,6 +28,7 @@ type readerAt struct {
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
 	var (
 		n   int
@@ -32,15 +36,21 @@ func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	)
 
 	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
+		r.pos = unknownPos
+
+		if _, err = r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
 			return 0, err
 		}
+
+		r.pos = offset
 	}
 
 	n, err = r.ReadSeeker.Read(p)
 	r.pos += int64(n)
-	r.readMutex.Unlock()
+
+	if err != nil {
+		r.pos = unknownPos
+	}
 
 	return n, err
 }
-- 
2.43.0


From f4291b0591a273b830ca83d92c9919de05f37a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 12/62] fix: fill the buffer or report an error in readerAt, as
 io.ReaderAt asks

---
 internal/bufioToReader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 86def47..cae670e 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -45,7 +46,11 @@ func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 		r.pos = offset
 	}
 
-	n, err = r.ReadSeeker.Read(p)
+	n, err = io.ReadFull(r.ReadSeeker, p)
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		err = io.EOF
+	}
+
 	r.pos += int64(n)
 
 	if err != nil {
-- 
2.43.0


From 205ceea2a1ec6aa0a7ac7c953e79c13babb5cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:52 +0000
Subject: [PATCH 13/62] fix: do not assume where a stream stands when it is
 made a readerAt

---
 internal/bufioToReader.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index cae670e..299d56c 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -66,10 +66,9 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	if ra, ok := br.rd.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
 		return &readerAt{
 			ReadSeeker: rs,
+			pos:        unknownPos,
 		}
 	}
 
@@ -83,7 +82,7 @@ func GetReaderAt(r io.Reader) io.ReaderAt {
 	} else if ra, ok := r.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := r.(io.ReadSeeker); ok {
-		return &readerAt{ReadSeeker: rs}
+		return &readerAt{ReadSeeker: rs, pos: unknownPos}
 	}
 
 	return nil
-- 
2.43.0


From b7d1158d0e42ea5a6af7944330ac3c29f04089b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:52 +0000
Subject: [PATCH 14/62] fix: dissolve by the opacity of the upper layer

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 0033617..943f9d8 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From dd07c911532dc0f9b5ddf84f700a0ba7d3c3c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 15/62] fix: give the layer of a single image its size in
 xcf.Encode

---
 xcf/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..8e7e198 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -105,7 +105,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
+		e.WriteLayer(limage.Layer{Image: im, LayerBounds: b}, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
-- 
2.43.0


From 96b26d9d0405656b14d35e2feae169eee0dcb4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 16/62] fix: place xcf layers relative to the top left of the
 canvas

---
 xcf/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 8e7e198..901eef9 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -100,7 +100,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(layerCount(im))
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, 0, 0, make([]uint32, 0, 32), pw)
+		e.WriteLayers(im, -int32(b.Min.X), -int32(b.Min.Y), make([]uint32, 0, 32), pw)
 	default:
 		pw := e.ReservePointerList(1)
 
-- 
2.43.0


From cefad7e05e6c9b15b2be9c2df01edcf3f360f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 17/62] fix: keep text and groups that have a mask in
 xcf.Encode

---
 xcf/encoder.go      |  4 +++-
 xcf/layer_encode.go | 25 +++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 901eef9..48c6818 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -115,7 +115,9 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
+		im, _ := splitMask(l.Image)
+
+		switch g := im.(type) {
 		case limage.Image:
 			count += layerCount(g)
 		case *limage.Image:
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..e000866 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -18,23 +18,13 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 	pw.WritePointer(uint32(e.pos))
 
 	var (
-		mask  *image.Gray
-		img   image.Image
 		text  limage.TextData
 		group limage.Image
 	)
 
-	if mim, ok := im.Image.(limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else if mim, ok := im.Image.(*limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else {
-		img = im.Image
-	}
+	img, mask := splitMask(im.Image)
 
-	switch i := im.Image.(type) {
+	switch i := img.(type) {
 	case limage.Text:
 		text = i.TextData
 	case *limage.Text:
@@ -54,6 +44,17 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 	}
 }
 
+func splitMask(im image.Image) (image.Image, *image.Gray) {
+	switch im := im.(type) {
+	case limage.MaskedImage:
+		return im.Image, im.Mask
+	case *limage.MaskedImage:
+		return im.Image, im.Mask
+	}
+
+	return im, nil
+}
+
 func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group limage.Image, text limage.TextData) {
 	b := im.Bounds()
 	dx, dy := uint32(b.Dx()), uint32(b.Dy())
-- 
2.43.0


From b48990f6c6c1b91ff8ce66d1835b4776cb78bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 18/62] fix: do not panic on text without colours in xcf.Encode

---
 xcf/text.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 8344279..8e565b0 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -228,7 +228,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		data = append(data, "</markup>\")\n"...)
 	}
 
-	r, g, b, _ := base.ForeColor.RGBA()
+	r, g, b, _ := rgba(base.ForeColor)
 
 	data = fmt.Appendf(data, "(font %q)\n"+
 		"(font-size %d.000000000)\n"+
@@ -258,15 +258,24 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	e.Write(data)
 }
 
+// rgba is the RGBA of a color that may not have been set.
+func rgba(c color.Color) (r, g, b, a uint32) {
+	if c == nil {
+		return 0, 0, 0, 0
+	}
+
+	return c.RGBA()
+}
+
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
-	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
+	if r, g, b, _ := rgba(td.ForeColor); r != 0 || g != 0 || b != 0 {
 		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
+	if r, g, b, _ := rgba(td.BackColor); r != 0 || g != 0 || b != 0 {
 		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
-- 
2.43.0


From ed19a9891baa7c31193e4eb5808ff23b3097cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 19/62] fix: quote and escape text as the decoder and GIMP read
 it in xcf.Encode

---
 xcf/text.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 8e565b0..046b77e 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -5,7 +5,6 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
-	"html"
 	"image/color"
 	"io"
 	"strconv"
@@ -204,6 +203,22 @@ func (q *quoteWriter) WriteString(s string) (int, error) {
 	return len(s), nil
 }
 
+func quote(s string) string {
+	q := quoteWriter{Buffer: new(bytes.Buffer)}
+
+	q.WriteString(s)
+
+	return "\"" + q.String() + "\""
+}
+
+func escape(s string) string {
+	var buf bytes.Buffer
+
+	xml.EscapeText(&buf, []byte(s))
+
+	return buf.String()
+}
+
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	var (
 		data []byte
@@ -212,25 +227,26 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 
 	if len(text) == 1 {
 		base = text[0]
-		data = fmt.Appendf(data, "(text %q)\n", base.Data)
+		data = fmt.Appendf(data, "(text %s)\n", quote(base.Data))
 	} else {
 		base = limage.TextDatum{
 			Font: "Sans",
 			Size: 18,
 		}
 
-		data = append(data, "(markup \"<markup>"...)
+		markup := []byte("<markup>")
 
 		for _, td := range text {
-			data = writeTextMarkup(td, data)
+			markup = writeTextMarkup(td, markup)
 		}
 
-		data = append(data, "</markup>\")\n"...)
+		markup = append(markup, "</markup>"...)
+		data = fmt.Appendf(data, "(markup %s)\n", quote(string(markup)))
 	}
 
 	r, g, b, _ := rgba(base.ForeColor)
 
-	data = fmt.Appendf(data, "(font %q)\n"+
+	data = fmt.Appendf(data, "(font %s)\n"+
 		"(font-size %d.000000000)\n"+
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
@@ -242,7 +258,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", quote(base.Font), base.Size, r>>8, g>>8, b>>8, dx, dy)
 
 	// write base
 
@@ -271,17 +287,17 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
 	if r, g, b, _ := rgba(td.ForeColor); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+		data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
 		closers = append(closers, "</span>")
 	}
 
 	if r, g, b, _ := rgba(td.BackColor); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
+		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Font != "Sans" {
-		data = fmt.Appendf(data, "<span font=%q>", td.Font)
+		data = fmt.Appendf(data, "<span font=\"%s\">", escape(td.Font))
 		closers = append(closers, "</span>")
 	}
 
@@ -306,21 +322,21 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", td.LetterSpacing<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", td.LetterSpacing<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", td.Size<<10)
+		data = fmt.Appendf(data, "<span size=\"%d\">", td.Size<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", td.Rise<<10)
+		data = fmt.Appendf(data, "<span rise=\"%d\">", td.Rise<<10)
 		closers = append(closers, "</span>")
 	}
 
-	data = fmt.Appendf(data, "%q", html.EscapeString(td.Data))
+	data = append(data, escape(td.Data)...)
 
 	for i := len(closers) - 1; i >= 0; i-- {
 		data = append(data, closers[i]...)
-- 
2.43.0


From 77f629acee98356cfde1e93de86502c0ff6636fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 20/62] fix: read the escapes GIMP writes in the strings of xcf
 parasites

---
 xcf/parasites.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..b29ca80 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -291,6 +291,16 @@ func quotedString(t *parser.Tokeniser) string {
 			switch c {
 			case "\"", "\\":
 				s += c
+			case "b":
+				s += "\b"
+			case "f":
+				s += "\f"
+			case "n":
+				s += "\n"
+			case "r":
+				s += "\r"
+			case "t":
+				s += "\t"
 			default:
 				s += "\\" + c
 			}
-- 
2.43.0


From 6b808667798da3c04246150f81a278c6b71ef29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 21/62] fix: keep the style of single pieces of text in
 xcf.Encode

---
 xcf/text.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/text.go b/xcf/text.go
index 046b77e..432aafd 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -219,13 +219,20 @@ func escape(s string) string {
 	return buf.String()
 }
 
+// isPlain reports whether the text needs no markup.
+func isPlain(td limage.TextDatum) bool {
+	_, _, _, back := rgba(td.BackColor)
+
+	return back == 0 && td.LetterSpacing == 0 && td.Rise == 0 && !td.Bold && !td.Italic && !td.Underline && !td.Strikethrough
+}
+
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	var (
 		data []byte
 		base limage.TextDatum
 	)
 
-	if len(text) == 1 {
+	if len(text) == 1 && isPlain(text[0]) {
 		base = text[0]
 		data = fmt.Appendf(data, "(text %s)\n", quote(base.Data))
 	} else {
-- 
2.43.0


From 1af901a814678f442683d73621030391d09fb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 22/62] fix: write and read back the background of xcf text

---
 xcf/text.go | 54 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 432aafd..5e5fb84 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -123,27 +123,19 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 			case "font":
 				nt.Font = a.Value
 			case "foreground":
-				if len(a.Value) == 7 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					nt.ForeColor = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
-				} else if len(a.Value) == 4 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					r := (n >> 4) & 240
-					r |= r >> 4
-					g := n & 240
-					g |= g >> 4
-					b := n & 15
-					b |= b << 4
-					nt.ForeColor = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
+				c, err := parseColour(a.Value, nt.ForeColor)
+				if err != nil {
+					return nt, err
 				}
+
+				nt.ForeColor = c
+			case "background":
+				c, err := parseColour(a.Value, nt.BackColor)
+				if err != nil {
+					return nt, err
+				}
+
+				nt.BackColor = c
 			case "size":
 				s, err := strconv.ParseUint(a.Value, 10, 32)
 				if err != nil {
@@ -180,6 +172,24 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
+// parseColour parses #RRGGBB and #RGB, and gives def for anything else.
+func parseColour(s string, def color.Color) (color.Color, error) {
+	if len(s) != 7 && len(s) != 4 || s[0] != '#' {
+		return def, nil
+	}
+
+	n, err := strconv.ParseUint(s[1:], 16, 32)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(s) == 4 {
+		n = (n>>8)*0x110000 | (n>>4&15)*0x1100 | (n&15)*0x11
+	}
+
+	return color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}, nil
+}
+
 type quoteWriter struct {
 	*bytes.Buffer
 }
@@ -298,8 +308,8 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := rgba(td.BackColor); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r, g, b)
+	if r, g, b, a := rgba(td.BackColor); a != 0 {
+		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
 		closers = append(closers, "</span>")
 	}
 
-- 
2.43.0


From eec09c4329afbdcb27580e4d8491264dbad5995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 23/62] fix: read and write the colour of xcf text in the range
 GIMP uses

---
 xcf/text.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 5e5fb84..fdf2dcc 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -95,11 +95,11 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			if len(tg.Values) == 1 {
 				t, _ := tg.Values[0].(tag)
 
-				if t.Name == "color-rgb" && len(t.Values) != 3 {
+				if t.Name == "color-rgb" && len(t.Values) == 3 {
 					r, _ := t.Values[0].(float64)
 					g, _ := t.Values[1].(float64)
 					b, _ := t.Values[2].(float64)
-					defaultText.ForeColor = lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)}
+					defaultText.ForeColor = lcolor.RGB{R: channel(r), G: channel(g), B: channel(b)}
 				}
 			}
 		case "justify":
@@ -114,6 +114,17 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	return textData, defaultText
 }
 
+// channel converts a colour channel in the range of 0 to 1.
+func channel(f float64) uint8 {
+	if f >= 1 {
+		return 255
+	} else if f > 0 {
+		return uint8(f*255 + 0.5)
+	}
+
+	return 0
+}
+
 func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, error) {
 	switch t.Name.Local {
 	case "markup":
@@ -268,14 +279,14 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
-		"(color (color-rgb %d.000000 %d.000000 %d.000000))\n"+
+		"(color (color-rgb %f %f %f))\n"+
 		"(justify left)\n"+
 		"(box-mode dynamic)\n"+
 		"(box-width %d.000000)\n"+
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", quote(base.Font), base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", quote(base.Font), base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
 
 	// write base
 
-- 
2.43.0


From 355f61e4a369fa3d93ad714f74e2b7e97c357455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 24/62] fix: do not panic on xcf text without a value

---
 xcf/text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/text.go b/xcf/text.go
index fdf2dcc..977bb8d 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -73,7 +73,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	for _, tg := range tags {
 		switch tg.Name {
 		case "text":
-			defaultText.Data, _ = tg.Values[0].(string)
+			if len(tg.Values) == 1 {
+				defaultText.Data, _ = tg.Values[0].(string)
+			}
 		case "markup":
 			if len(tg.Values) == 1 {
 				textData, _ = tg.Values[0].(string)
-- 
2.43.0


From 371932df3335c67659146e3f9af77d842af95aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 25/62] fix: write as many pixels as an xcf layer is said to
 have

---
 xcf/channel.go      |  6 ++----
 xcf/encoder.go      |  2 +-
 xcf/image_encode.go |  4 +---
 xcf/layer_encode.go | 14 ++++++++------
 4 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..38c84e0 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -50,9 +50,7 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
+func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 	e.WriteString("")
@@ -61,5 +59,5 @@ func (e *encoder) WriteChannel(c *image.Gray) {
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/encoder.go b/xcf/encoder.go
index 48c6818..4710ecd 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -105,7 +105,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im, LayerBounds: b}, 0, 0, []uint32{}, pw)
+		e.WriteLayer(limage.Layer{Image: im, LayerBounds: b}, b, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..2357c60 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -7,9 +7,7 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
-
+func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc colourBufFunc, colourChannels uint8) {
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index e000866..0adc923 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -10,11 +10,13 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 	for n, layer := range layers {
 		nGroups := append(groups, uint32(n))
 
-		e.WriteLayer(layer, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
+		e.WriteLayer(layer, image.Rectangle{Max: layer.LayerBounds.Size()}, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
 	}
 }
 
-func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+// WriteLayer writes the layer and, if it is a group, those inside it. The area
+// is the part of the image that the layer shows.
+func (e *encoder) WriteLayer(im limage.Layer, area image.Rectangle, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(uint32(e.pos))
 
 	var (
@@ -37,7 +39,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 
 	writeProperties(e, im, offsetX, offsetY, groups, group, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, area)
 
 	if group != nil {
 		e.WriteLayers(group, offsetX, offsetY, groups, pw)
@@ -187,16 +189,16 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, area image.Rectangle) {
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(uint32(e.pos))
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, area, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(uint32(e.pos))
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, area)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From f875405c7157ec095946cc39281c3262a1bcd958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 26/62] fix: accept the masks of xcf layers that are not at the
 origin

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..a76b1f8 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From 50eee4e0ba19f609665166631deb5da62c2c439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 27/62] fix: do not panic on masks in xcf.DecodeCompressed

---
 xcf/channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 38c84e0..7aa7072 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,7 +19,10 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
-	if im := d.ReadImage(width, height, 2); im != nil {
+	c := *d
+	c.decompress = true // the mask has to be an *image.Gray
+
+	if im := c.ReadImage(width, height, 2); im != nil {
 		return im.(*image.Gray) // gray
 	}
 
-- 
2.43.0


From 90ed58d30e7bb53a33c3eb3c44b01974aceb3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 28/62] fix: keep the masks of xcf groups when decoding

---
 xcf/decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..113223b 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -421,7 +421,12 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 		if g.Parent == nil {
 			im = ng
 		} else {
-			(*g.Parent)[g.Offset].Image = ng
+			if m, ok := (*g.Parent)[g.Offset].Image.(limage.MaskedImage); ok {
+				m.Image = ng
+				(*g.Parent)[g.Offset].Image = m
+			} else {
+				(*g.Parent)[g.Offset].Image = ng
+			}
 		}
 	}
 
-- 
2.43.0


From f04c7a188f85e5a15be9b4b58701f2c707664498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 29/62] fix: read the blend modes of gray xcf images, and
 dissolve of indexed ones

---
 xcf/layer_decode.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index a76b1f8..0d0381b 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -124,15 +124,14 @@ PropertyLoop:
 		case propLockAlpha:
 			d.SkipBoolProperty()
 		case propMode:
-			if d.baseType != 0 {
-				switch d.ReadUint32() {
-				case 2: // Behind
-					l.Mode = limage.CompositeBehind
+			l.readMode(d)
+
+			if d.baseType == baseIndexed {
+				switch l.Mode {
+				case limage.CompositeDissolve, limage.CompositeBehind:
 				default:
 					l.Mode = limage.CompositeNormal
 				}
-			} else {
-				l.readMode(d)
 			}
 		case propOffsets:
 			offsetX := int(d.ReadInt32())
-- 
2.43.0


From 4dd67c72ad523c11fc6bac20193ed223426a8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 30/62] fix: write luminance as the blend mode it is in
 xcf.Encode

---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 0adc923..dbc36f5 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -156,8 +156,6 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
@@ -176,6 +174,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From 52159de221cead42f3325df05e1afe08738790dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 31/62] fix: choose the palette entry by the unmultiplied
 colour in xcf.Encode

---
 xcf/image_encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 2357c60..c9cab29 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -84,8 +84,8 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
+	rgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+	i := e.colourPalette.Index(lcolor.RGB{R: rgba.R, G: rgba.G, B: rgba.B})
 	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	e.colourBuf[1] = rgba.A
 }
-- 
2.43.0


From 843cc12b96c81d6f266d9eb66000d66e58895a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 32/62] fix: accept the last of an xcf file along with io.EOF

---
 xcf/reader.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..aa6c1d3 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -18,11 +18,26 @@ func newReader(r io.ReaderAt) reader {
 		rs: io.NewSectionReader(r, 0, maxString),
 	}
 
-	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
+	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: fullReader{nr.rs}}
 
 	return nr
 }
 
+// fullReader reads without an error all that was asked for, as a io.ReaderAt may
+// give io.EOF along with the last of the data.
+type fullReader struct {
+	io.Reader
+}
+
+func (f fullReader) Read(p []byte) (int, error) {
+	n, err := f.Reader.Read(p)
+	if n == len(p) {
+		err = nil
+	}
+
+	return n, err
+}
+
 const maxString = 16 * 1024 * 1024
 
 func (r *reader) ReadString() string {
-- 
2.43.0


From 5e92d33cd9b07a9ae5ca2b8f4d612eda55ba88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 33/62] fix: read xcf files of more than 16 MiB

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index aa6c1d3..7d684fa 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: fullReader{nr.rs}}
-- 
2.43.0


From 8403b6d4f7f5706b18d9874686987daff67e4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 34/62] fix: report pointers out of range when reading an xcf
 file

---
 xcf/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7d684fa..81db900 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -69,7 +69,9 @@ func (r *reader) ReadString() string {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
+		r.SetError(ErrInvalidSeek)
+	}
 }
 
 func (r *reader) SetError(err error) {
-- 
2.43.0


From 627001140f0fb8bce289c4cdd09b8171a8fd0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 35/62] fix: show the same colours in sub-images of layers

---
 image.go | 14 ++++++++++++++
 layer.go | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 misc.go  |  7 +++++++
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 41f10b7..92750ef 100644
--- a/image.go
+++ b/image.go
@@ -69,3 +69,17 @@ func (g Image) SubImage(r image.Rectangle) image.Image {
 
 	return h
 }
+
+func (g Image) crop(r image.Rectangle) Image {
+	h := make(Image, len(g))
+
+	for n, l := range g {
+		h[n] = l.SubImageLayer(r)
+
+		if !h[n].LayerBounds.Empty() {
+			h[n].LayerBounds = h[n].LayerBounds.Sub(r.Min)
+		}
+	}
+
+	return h
+}
diff --git a/layer.go b/layer.go
index f156769..a0ab2b2 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,51 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	b := r.Intersect(l.LayerBounds)
+
+	if b != l.LayerBounds {
+		l.Image = crop(l.Image, b.Sub(l.LayerBounds.Min))
+	}
+
+	l.LayerBounds = b
 
 	return l
 }
+
+// crop gives the part of the image within r, moved to the origin.
+func crop(im image.Image, r image.Rectangle) image.Image {
+	switch im := im.(type) {
+	case nil:
+		return nil
+	case Image:
+		return im.crop(r)
+	case *Image:
+		return im.crop(r)
+	case Text:
+		return Text{Image: crop(im.Image, r), TextData: im.TextData}
+	case *Text:
+		return Text{Image: crop(im.Image, r), TextData: im.TextData}
+	case MaskedImage:
+		return im.crop(r)
+	case *MaskedImage:
+		return im.crop(r)
+	}
+
+	return part{Image: im, rect: r}
+}
+
+// part shows a part of an image at the origin.
+type part struct {
+	image.Image
+	rect image.Rectangle
+}
+
+// Bounds returns the limits of the part.
+func (p part) Bounds() image.Rectangle {
+	return image.Rectangle{Max: p.rect.Size()}
+}
+
+// At returns the colour at the specified coords.
+func (p part) At(x, y int) color.Color {
+	return p.Image.At(x+p.rect.Min.X, y+p.rect.Min.Y)
+}
diff --git a/misc.go b/misc.go
index 1e2d08f..4b4f123 100644
--- a/misc.go
+++ b/misc.go
@@ -20,6 +20,13 @@ func (m MaskedImage) At(x, y int) color.Color {
 	return transparency(m.Image.At(x, y), m.Mask.GrayAt(x, y).Y)
 }
 
+func (m MaskedImage) crop(r image.Rectangle) MaskedImage {
+	mask, _ := m.Mask.SubImage(r).(*image.Gray)
+	mask.Rect = mask.Rect.Sub(r.Min)
+
+	return MaskedImage{Image: crop(m.Image, r), Mask: mask}
+}
+
 // Text represents a text layer.
 type Text struct {
 	image.Image
-- 
2.43.0


From 8e9eb81e192c86565345171b98aeaaa8a5b8ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 36/62] fix: cut xcf layers at the edges of the canvas without
 moving what they show

---
 xcf/decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 113223b..70b58a7 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -391,6 +391,8 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			return nil, ErrInvalidGroup
 		}
 
+		l.Layer = l.SubImageLayer(bounds)
+
 		if l.group {
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
@@ -401,7 +403,7 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			}
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
+		l.LayerBounds = l.LayerBounds.Sub(image.Pt(g.OffsetX, g.OffsetY))
 		g.Group = append(g.Group, l.Layer)
 	}
 
-- 
2.43.0


From 08d2ed6d0224a64d330904dc41309c7c080978b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 37/62] fix: cut ora layers at the edges of the canvas without
 moving what they show

---
 ora/stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 6dde946..06a3d7d 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -105,9 +105,9 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		b = image.Rectangle{Max: b.Max}
 	}
 
-	l.LayerBounds = b.Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits}.Sub(offset))
+	l.LayerBounds = b.Add(l.LayerBounds.Min)
 
-	return l, nil
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From 67150621221bbf5ccbd755e1658aaca930170d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 38/62] fix: do not darken colours with alpha when they are
 made gray

---
 lcolor/gray.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..59f0079 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,16 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	if ga, ok := c.(GrayAlpha); ok {
+		return ga
+	}
+
+	n := internal.ColourToNRGBA(c)
+	a := uint8(n.A >> 8)
+	n.A = 0xffff // the brightness is that of the colour, without its alpha
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
-		A: uint8(a >> 8),
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
+		A: a,
 	}
 }
-- 
2.43.0


From 9198e1eb7133d84927bd5853a59f9975cda97180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 39/62] fix: read the pixels of uncompressed xcf tiles in the
 order they are stored

---
 xcf/image_decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..1345ef0 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -151,7 +151,6 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 	}
 
 	pixel := make([]byte, bpp)
-	channels := make([][]byte, bpp)
 
 	for y := uint32(0); y < height; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
@@ -173,15 +172,16 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 
 			d.SetError(err)
 
-			for i := uint32(0); i < bpp; i++ {
-				channels[i] = pixBuffer[n*i : n*(i+1)]
+			next, step := bpp, uint32(1) // uncompressed pixels are stored whole
+
+			if d.compression != 0 { // compressed ones a channel at a time
+				next, step = 1, n
 			}
 
 			for j := uint32(0); j < h; j++ {
 				for i := uint32(0); i < w; i++ {
 					for k := uint32(0); k < bpp; k++ {
-						pixel[k] = channels[k][0]
-						channels[k] = channels[k][1:]
+						pixel[k] = pixBuffer[(j*w+i)*next+k*step]
 					}
 
 					imReader.ReadColour(int(x+i), int(y+j), pixel)
-- 
2.43.0


From dc9ba7fb183033529c3fb3ec520a6fb545f56c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 40/62] fix: skip the colour map of xcf images that are not
 indexed

---
 xcf/decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 70b58a7..2e743b1 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -242,6 +242,8 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				break
 			}
 
 			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
-- 
2.43.0


From 0148260045239a8ec525f832b517f4c0b85e2c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 41/62] fix: skip the guides and sample points of xcf images by
 their size

---
 xcf/decoder.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 2e743b1..0143c91 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -266,10 +266,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidGuideLength
 			}
 
-			for n := uint32(0); n < ng; n++ {
-				dr.SkipUint32()
-				dr.SkipBoolProperty()
-			}
+			dr.Skip(plength) // ng * (uint32 + byte)
 		case propPaths:
 			dr.SkipPaths()
 		case propResolution:
@@ -280,10 +277,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidSampleLength
 			}
 
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
+			dr.Skip(plength)
 		case propUnit:
 			if dr.ReadUint32() > 4 {
 				return nil, 0, ErrInvalidUnit
-- 
2.43.0


From d3587617345131c102b0ac87d1eb7806897b7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 42/62] fix: skip the whole pointer of floating selections in
 xcf files

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 0d0381b..03fae88 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -114,7 +114,7 @@ PropertyLoop:
 		case propEditMask:
 			d.SkipBoolProperty()
 		case propFloatingSelection:
-			d.SkipUint32()
+			d.Skip(plength) // a pointer
 		case propGroupItem:
 			l.group = true
 		case propItemPath:
-- 
2.43.0


From 2de1b77cf76497cd7f25ec6e4497b42557582d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 43/62] fix: round the opacity of xcf layers to the nearest

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 03fae88..d73af9e 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -142,7 +142,7 @@ PropertyLoop:
 		case propTextLayerFlags:
 			d.SkipUint32()
 		case propFloatOpacity:
-			l.Transparency = 255 - uint8(d.ReadFloat32()*255)
+			l.Transparency = 255 - channel(float64(d.ReadFloat32()))
 		default:
 			d.Skip(plength)
 		}
-- 
2.43.0


From 32961a3b29b2c11ee5ffa91dfa933dce90ab5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 44/62] fix: skip the precision of xcf images of version 4 to
 10 in DecodeConfig

---
 xcf/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 0143c91..450024a 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,8 +86,8 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
-		dr.ReadUint32()
+	if mode > 0 {
+		dr.ReadUint32() // precision
 	}
 
 	switch baseType {
-- 
2.43.0


From a229268392b6d740121e94ab85adcfb854d814c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 45/62] fix: skip the points of xcf paths and vectors by their
 size, and stop at the end of the file

---
 xcf/skip.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..f180300 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -3,7 +3,17 @@ package xcf
 import "io"
 
 func (r *reader) Skip(n uint32) {
-	r.rs.Seek(int64(n), io.SeekCurrent)
+	r.skip(uint64(n))
+}
+
+func (r *reader) skip(n uint64) {
+	if r.Err != nil {
+		return
+	}
+
+	if _, err := r.rs.Seek(int64(n), io.SeekCurrent); err != nil {
+		r.SetError(ErrInvalidSeek)
+	}
 }
 
 func (r *reader) SkipBoolProperty() {
@@ -41,7 +51,7 @@ func (r *reader) SkipPaths() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipBoolProperty() // linked
 		r.SkipByte()         // state
@@ -62,7 +72,7 @@ func (r *reader) SkipPaths() {
 			return
 		}
 
-		r.Skip(12 * np) // (control[4] + x[4] + y[4]) * np
+		r.skip(12 * uint64(np)) // (control[4] + x[4] + y[4]) * np
 	}
 }
 
@@ -77,7 +87,7 @@ func (r *reader) SkipVectors() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipUint32()       // tattoo
 		r.SkipBoolProperty() // visible
@@ -86,11 +96,11 @@ func (r *reader) SkipVectors() {
 		m := r.ReadUint32()
 		k := r.ReadUint32()
 
-		for j := uint32(0); j < m; j++ {
+		for j := uint32(0); j < m && r.Err == nil; j++ {
 			r.SkipParasite()
 		}
 
-		for j := uint32(0); j < k; j++ {
+		for j := uint32(0); j < k && r.Err == nil; j++ {
 			if r.ReadUint32() != 1 { // stroke type
 				r.SetError(ErrUnknownStrokeType)
 
@@ -105,13 +115,13 @@ func (r *reader) SkipVectors() {
 			switch nf {
 			case 2, 3, 4, 5, 6:
 				/*
-					2: Bool + Float32 + Float32 = 5
-					3: +Float32 = 9
-					4: +Float32 = 13
-					5: +Float32 = 17
-					6: +Float32 = 21
+					2: Bool + Float32 + Float32 = 12
+					3: +Float32 = 16
+					4: +Float32 = 20
+					5: +Float32 = 24
+					6: +Float32 = 28
 				*/
-				r.Skip(np * (nf*4 + 1))
+				r.skip(uint64(np) * uint64(nf*4+4))
 			default:
 				r.SetError(ErrInvalidFloatsNumber)
 
-- 
2.43.0


From c1657c819ced642b96aa65d0ad2d71ef6beff405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 46/62] fix: do not allocate for strings, parasites and paths
 that are not in the xcf file

---
 xcf/layer_decode.go |  6 +++---
 xcf/parasites.go    | 18 +++++++-----------
 xcf/reader.go       | 21 ++++++++++++++++-----
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index d73af9e..06ba253 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -235,10 +235,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = nil
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
 
diff --git a/xcf/parasites.go b/xcf/parasites.go
index b29ca80..9999433 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -36,27 +36,25 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	for l > 0 && d.Err == nil {
 		var p parasite
 
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
+		read := 4 + uint64(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
 		read += 4                           // flags
 		read += 4                           // pplength
-		read += pplength                    // len(data)
+		read += uint64(pplength)            // len(data)
 
-		if read > l {
+		if read > uint64(l) {
 			d.SetError(ErrInvalidParasites)
 
 			return nil
 		}
 
-		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		l -= uint32(read)
+		p.data = d.readBytes(pplength)
 
 		ps = append(ps, p)
 	}
@@ -71,9 +69,7 @@ func (d *reader) ReadParasite() parasite {
 	p.flags = d.ReadUint32()
 	pplength := d.ReadUint32()
 
-	p.data = make([]byte, pplength)
-
-	d.Read(p.data)
+	p.data = d.readBytes(pplength)
 
 	return p
 }
diff --git a/xcf/reader.go b/xcf/reader.go
index 81db900..8c0d306 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -1,6 +1,7 @@
 package xcf
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"math"
@@ -51,11 +52,8 @@ func (r *reader) ReadString() string {
 		return ""
 	}
 
-	b := make([]byte, length)
-
-	if _, err := io.ReadFull(r, b); err != nil {
-		r.Err = err
-
+	b := r.readBytes(length)
+	if r.Err != nil {
 		return ""
 	}
 
@@ -68,6 +66,19 @@ func (r *reader) ReadString() string {
 	return string(b[:length-1])
 }
 
+// readBytes reads n bytes, using no more memory than there is to read.
+func (r *reader) readBytes(n uint32) []byte {
+	var buf bytes.Buffer
+
+	if _, err := io.CopyN(&buf, r, int64(n)); errors.Is(err, io.EOF) {
+		r.Err = io.ErrUnexpectedEOF
+	} else if err != nil {
+		r.SetError(err)
+	}
+
+	return buf.Bytes()
+}
+
 func (r *reader) Goto(n uint64) {
 	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
 		r.SetError(ErrInvalidSeek)
-- 
2.43.0


From f651152768c43d732b30cc2f19e2e7fd2591c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 47/62] fix: reject xcf palettes without colours or with too
 many

---
 xcf/decoder.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 450024a..9427ac4 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -61,6 +61,8 @@ const (
 	baseIndexed = 2
 )
 
+const maxColours = 256
+
 type decoder struct {
 	reader
 	compression uint8
@@ -246,7 +248,12 @@ PropertyLoop:
 				break
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			n := dr.ReadUint32()
+			if n > maxColours {
+				return nil, 0, ErrInvalidPalette
+			}
+
+			palette = make(lcolor.AlphaPalette, n)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
@@ -297,6 +304,10 @@ PropertyLoop:
 		}
 	}
 
+	if dr.Err == nil && baseType == baseIndexed && len(palette) == 0 {
+		return nil, 0, ErrInvalidPalette
+	}
+
 	return palette, compression, nil
 }
 
@@ -452,5 +463,6 @@ var (
 	ErrInvalidGroup        = errors.New("invalid or unknown group specified for layer")
 	ErrUnknownCompression  = errors.New("unknown compression method")
 	ErrMissingAlpha        = errors.New("non-bottom layer missing alpha channel")
+	ErrInvalidPalette      = errors.New("invalid palette")
 	ErrNeedReaderAt        = errors.New("need a io.ReaderAt")
 )
-- 
2.43.0


From 2f9ccddfa20fb6d78a12d2c9a449238de82f47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 48/62] fix: check the size and type of xcf images against the
 tiles there are

---
 xcf/image_decode.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 1345ef0..fb8bae3 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -34,6 +34,12 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 		return nil
 	}
 
+	if width > math.MaxInt32 || height > math.MaxInt32 {
+		d.SetError(ErrInconsistantData)
+
+		return nil
+	}
+
 	tiles := d.readTiles(width, height)
 
 	if d.ReadUint32() != 0 {
@@ -41,6 +47,10 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 		return nil
 	}
 
+	if d.Err != nil {
+		return nil
+	}
+
 	r := image.Rect(0, 0, int(width), int(height))
 
 	if d.decompress || d.compression == 0 {
@@ -76,6 +86,10 @@ func (d *decoder) validBPP(mode, bpp uint32) bool {
 
 			return false
 		}
+	default:
+		d.SetError(ErrInvalidLayerType)
+
+		return false
 	}
 
 	return true
@@ -90,16 +104,10 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	var tiles []uint64
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	for n := uint64((width+63)/64) * uint64((height+63)/64); n > 0 && d.Err == nil; n-- {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
@@ -152,7 +160,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 
 	pixel := make([]byte, bpp)
 
-	for y := uint32(0); y < height; y += 64 {
+	for y := uint32(0); y < height && len(tiles) > 0; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
 			d.Goto(tiles[0])
 			tiles = tiles[1:]
@@ -202,7 +210,7 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
-	for y := uint32(0); y < height; y += 64 {
+	for y := uint32(0); y < height && len(tiles) > 0; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
 			d.Goto(tiles[0])
 
-- 
2.43.0


From 5b6e8a9a8fa3c963d25f1a0ab4fcce2d0faad727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 49/62] fix: stop at the first tile of a xcf image that can not
 be read

---
 xcf/image_decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index fb8bae3..30ef1ab 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -180,6 +180,10 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 
 			d.SetError(err)
 
+			if d.Err != nil {
+				return nil
+			}
+
 			next, step := bpp, uint32(1) // uncompressed pixels are stored whole
 
 			if d.compression != 0 { // compressed ones a channel at a time
-- 
2.43.0


From cbad6451cba9d846e52fa2281b24008b67c25fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 50/62] fix: reject xcf groups with the same path

---
 xcf/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 9427ac4..8579d1e 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -401,6 +401,10 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 		l.Layer = l.SubImageLayer(bounds)
 
 		if l.group {
+			if groups[string(l.itemPath)] != nil {
+				return nil, ErrInvalidGroup
+			}
+
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
-- 
2.43.0


From e7b2625cd4662f61819881e568d95b1911a0497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 51/62] fix: do not panic on xcf pixels of colours that are not
 in the palette

---
 xcf/compressed.go   | 15 +++++++++++++--
 xcf/image_decode.go |  6 ++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index a2c4264..4519e12 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -192,7 +192,12 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 	}
 
 	p := c.decompressTile(x, y)
-	i := c.decompressed[p]
+	i := int(c.decompressed[p])
+
+	if i >= len(c.Palette) {
+		return color.NRGBA{A: 255}
+	}
+
 	r, g, b, _ := c.Palette[i].RGBA()
 
 	return color.NRGBA{
@@ -228,7 +233,13 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 	}
 
 	p := c.decompressTile(x, y)
-	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()
+	i := int(c.decompressed[p])
+
+	if i >= len(c.Palette) {
+		return color.NRGBA{A: c.decompressed[64*64+p]}
+	}
+
+	r, g, b, _ := c.Palette[i].RGBA()
 
 	return color.NRGBA{
 		R: uint8(r >> 8),
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 30ef1ab..838d9ef 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -196,6 +196,12 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 						pixel[k] = pixBuffer[(j*w+i)*next+k*step]
 					}
 
+					if mode>>1 == baseIndexed && int(pixel[0]) >= len(d.palette) {
+						d.SetError(ErrInvalidPalette)
+
+						return nil
+					}
+
 					imReader.ReadColour(int(x+i), int(y+j), pixel)
 				}
 			}
-- 
2.43.0


From 7e08134f0e262c8fcff21c508859476fb598dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 52/62] fix: let several goroutines read the pixels of one
 deferred xcf image

---
 xcf/compressed.go   | 65 ++++++++++++++++++++++++++++-----------------
 xcf/image_decode.go | 21 ++++++---------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index 4519e12..3670665 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -5,6 +5,7 @@ import (
 	"image"
 	"image/color"
 	"io"
+	"sync"
 
 	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage/lcolor"
@@ -12,12 +13,28 @@ import (
 )
 
 type compressedImage struct {
+	mu           sync.Mutex // locks tile and decompressed
 	tiles        [][][]byte
 	width        int
 	tile         int
 	decompressed [64 * 64 * 4]byte
 }
 
+// pixel gives the channels of the pixel at the specified coords.
+func (c *compressedImage) pixel(x, y int) [4]byte {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	p := c.decompressTile(x, y)
+
+	return [4]byte{
+		c.decompressed[p],
+		c.decompressed[p+64*64],
+		c.decompressed[p+64*64*2],
+		c.decompressed[p+64*64*3],
+	}
+}
+
 func (c *compressedImage) decompressTile(x, y int) int {
 	if tile := (y/64)*((c.width+63)/64) + (x / 64); tile != c.tile {
 		var (
@@ -53,7 +70,7 @@ type CompressedRGB struct {
 }
 
 // ColorModel returns the RGB Color Model.
-func (CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
+func (*CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedRGB) Bounds() image.Rectangle { return c.Rect }
@@ -67,12 +84,12 @@ func (c *CompressedRGB) RGBAt(x, y int) lcolor.RGB {
 		return lcolor.RGB{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return lcolor.RGB{
-		R: c.decompressed[p],
-		G: c.decompressed[p+64*64],
-		B: c.decompressed[p+64*64*2],
+		R: p[0],
+		G: p[1],
+		B: p[2],
 	}
 }
 
@@ -84,7 +101,7 @@ type CompressedNRGBA struct {
 }
 
 // ColorModel returns the NRGBA Color Model.
-func (CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
+func (*CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedNRGBA) Bounds() image.Rectangle { return c.Rect }
@@ -98,13 +115,13 @@ func (c *CompressedNRGBA) NRGBAAt(x, y int) color.NRGBA {
 		return color.NRGBA{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return color.NRGBA{
-		c.decompressed[p],
-		c.decompressed[p+64*64],
-		c.decompressed[p+64*64*2],
-		c.decompressed[p+64*64*3],
+		p[0],
+		p[1],
+		p[2],
+		p[3],
 	}
 }
 
@@ -116,7 +133,7 @@ type CompressedGray struct {
 }
 
 // ColorModel returns the Gray Color Model.
-func (CompressedGray) ColorModel() color.Model { return color.GrayModel }
+func (*CompressedGray) ColorModel() color.Model { return color.GrayModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGray) Bounds() image.Rectangle { return c.Rect }
@@ -130,10 +147,10 @@ func (c *CompressedGray) GrayAt(x, y int) color.Gray {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return color.Gray{
-		c.decompressed[p],
+		p[0],
 	}
 }
 
@@ -145,7 +162,7 @@ type CompressedGrayAlpha struct {
 }
 
 // ColorModel returns the Gray Alpha Color Model.
-func (CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
+func (*CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGrayAlpha) Bounds() image.Rectangle { return c.Rect }
@@ -159,11 +176,11 @@ func (c *CompressedGrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 		return lcolor.GrayAlpha{}
 	}
 
-	p := c.decompressTile(x, y)
+	p := c.pixel(x, y)
 
 	return lcolor.GrayAlpha{
-		Y: c.decompressed[p],
-		A: c.decompressed[p+64*64],
+		Y: p[0],
+		A: p[1],
 	}
 }
 
@@ -191,8 +208,8 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
-	i := int(c.decompressed[p])
+	p := c.pixel(x, y)
+	i := int(p[0])
 
 	if i >= len(c.Palette) {
 		return color.NRGBA{A: 255}
@@ -232,11 +249,11 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
-	p := c.decompressTile(x, y)
-	i := int(c.decompressed[p])
+	p := c.pixel(x, y)
+	i := int(p[0])
 
 	if i >= len(c.Palette) {
-		return color.NRGBA{A: c.decompressed[64*64+p]}
+		return color.NRGBA{A: p[1]}
 	}
 
 	r, g, b, _ := c.Palette[i].RGBA()
@@ -245,6 +262,6 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		R: uint8(r >> 8),
 		G: uint8(g >> 8),
 		B: uint8(b >> 8),
-		A: c.decompressed[64*64+p],
+		A: p[1],
 	}
 }
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 838d9ef..675687d 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -212,12 +212,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 }
 
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
-	ci := compressedImage{
-		tiles: make([][][]byte, 0, len(tiles)),
-		width: int(width),
-		tile:  -1,
-	}
-
+	cts := make([][][]byte, 0, len(tiles))
 	buf := make(memio.Buffer, 0, 64*64*4)
 
 	for y := uint32(0); y < height && len(tiles) > 0; y += 64 {
@@ -250,23 +245,23 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 				ts = append(ts, b)
 			}
 
-			ci.tiles = append(ci.tiles, ts)
+			cts = append(cts, ts)
 		}
 	}
 
 	switch mode {
 	case 0: // rgb
-		return &CompressedRGB{ci, r}
+		return &CompressedRGB{compressedImage{tiles: cts, width: int(width), tile: -1}, r}
 	case 1: // rgba
-		return &CompressedNRGBA{ci, r}
+		return &CompressedNRGBA{compressedImage{tiles: cts, width: int(width), tile: -1}, r}
 	case 2: // gray
-		return &CompressedGray{ci, r}
+		return &CompressedGray{compressedImage{tiles: cts, width: int(width), tile: -1}, r}
 	case 3: // gray + alpha
-		return &CompressedGrayAlpha{ci, r}
+		return &CompressedGrayAlpha{compressedImage{tiles: cts, width: int(width), tile: -1}, r}
 	case 4: // indexed
-		return &CompressedPaletted{ci, r, color.Palette(d.palette)}
+		return &CompressedPaletted{compressedImage{tiles: cts, width: int(width), tile: -1}, r, color.Palette(d.palette)}
 	case 5: // indexed + alpha
-		return &CompressedPalettedAlpha{ci, r, d.palette}
+		return &CompressedPalettedAlpha{compressedImage{tiles: cts, width: int(width), tile: -1}, r, d.palette}
 	default:
 		return nil
 	}
-- 
2.43.0


From 3a704675f13bebcd9bfad7b5a151f07c1ea8f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 53/62] fix: reject xcf images with fewer tiles than their size
 asks for

---
 xcf/image_decode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 675687d..fa1e63e 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -107,7 +107,12 @@ func (d *decoder) readTiles(width, height uint32) []uint64 {
 	var tiles []uint64
 
 	for n := uint64((width+63)/64) * uint64((height+63)/64); n > 0 && d.Err == nil; n-- {
-		tiles = append(tiles, d.readLayerPointer())
+		ptr := d.readLayerPointer()
+		if ptr == 0 { // the end of the list
+			d.SetError(ErrInconsistantData)
+		}
+
+		tiles = append(tiles, ptr)
 	}
 
 	return tiles
-- 
2.43.0


From 2b2d2e127436669cb5f6338e91a67586f59d55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 54/62] fix: do not loop on unknown characters in xcf parasites

---
 xcf/parasites.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 9999433..65be597 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -263,6 +263,12 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
+	if !t.Accept(valName) {
+		t.Err = ErrInvalidParasites
+
+		return t.Error()
+	}
+
 	t.AcceptRun(valName)
 
 	return parser.Token{
-- 
2.43.0


From 719cebf07d83ffdabbbdbb57bd80eae35888baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 55/62] fix: write the colours of palettes with alpha
 unmultiplied in xcf.Encode

---
 xcf/encoder.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 4710ecd..82491d7 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -55,12 +55,12 @@ func Encode(w io.WriterAt, im image.Image) error {
 	default:
 		switch m := cm.(type) {
 		case color.Palette:
-			e.colourPalette = lcolor.AlphaPalette(m)
+			e.colourPalette = opaque(m)
 			e.colourType = 2
 			e.colourFunc = (*encoder).paletteAlphaToBuf
 			e.colourChannels = 2
 		case lcolor.AlphaPalette:
-			e.colourPalette = m
+			e.colourPalette = opaque(color.Palette(m))
 			e.colourType = 2
 			e.colourFunc = (*encoder).paletteAlphaToBuf
 			e.colourChannels = 2
@@ -80,7 +80,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		e.WriteUint32(uint32(len(e.colourPalette)))
 
 		for _, colour := range e.colourPalette {
-			rgb := lcolor.RGBModel.Convert(colour).(lcolor.RGB)
+			rgb := colour.(lcolor.RGB)
 
 			e.WriteUint8(rgb.R)
 			e.WriteUint8(rgb.G)
@@ -111,6 +111,19 @@ func Encode(w io.WriterAt, im image.Image) error {
 	return e.Err
 }
 
+// opaque gives the colours of the palette without their alpha, which is stored
+// with the pixels.
+func opaque(p color.Palette) lcolor.AlphaPalette {
+	op := make(lcolor.AlphaPalette, len(p))
+
+	for n, c := range p {
+		nrgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+		op[n] = lcolor.RGB{R: nrgba.R, G: nrgba.G, B: nrgba.B}
+	}
+
+	return op
+}
+
 func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
-- 
2.43.0


From fe360096f054412caec072edc95e6d35e855ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 56/62] fix: report palettes that a xcf file can not hold in
 xcf.Encode

---
 xcf/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 82491d7..b461600 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -70,6 +70,11 @@ func Encode(w io.WriterAt, im image.Image) error {
 			e.colourChannels = 4
 		}
 	}
+
+	if e.colourType == baseIndexed && (len(e.colourPalette) == 0 || len(e.colourPalette) > maxColours) {
+		return ErrInvalidPalette
+	}
+
 	e.WriteUint32(uint32(e.colourType))
 
 	// write property list
-- 
2.43.0


From a3054a5b902d79f6ab758dadeb53ba4c14270230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 57/62] fix: do not call images with an alpha channel opaque in
 PalettedAlpha

---
 indexedalpha.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..c6f3d5a 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -68,11 +68,11 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 func (p *PalettedAlpha) Opaque() bool {
 	for _, c := range p.Pix {
 		if c.A != 255 {
-			return true
+			return false
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 8c62c84627d7f5b37086ac3c787bf8847b4462df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 58/62] fix: keep the palette of layers that are cut

---
 layer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index a0ab2b2..a34352d 100644
--- a/layer.go
+++ b/layer.go
@@ -64,7 +64,13 @@ func crop(im image.Image, r image.Rectangle) image.Image {
 		return im.crop(r)
 	}
 
-	return part{Image: im, rect: r}
+	p := part{Image: im, rect: r}
+
+	if im, ok := im.(image.PalettedImage); ok {
+		return palettedPart{part: p, indexes: im}
+	}
+
+	return p
 }
 
 // part shows a part of an image at the origin.
@@ -82,3 +88,14 @@ func (p part) Bounds() image.Rectangle {
 func (p part) At(x, y int) color.Color {
 	return p.Image.At(x+p.rect.Min.X, y+p.rect.Min.Y)
 }
+
+// palettedPart is a part of an image that has a palette.
+type palettedPart struct {
+	part
+	indexes image.PalettedImage
+}
+
+// ColorIndexAt returns the palette index at the specified coords.
+func (p palettedPart) ColorIndexAt(x, y int) uint8 {
+	return p.indexes.ColorIndexAt(x+p.rect.Min.X, y+p.rect.Min.Y)
+}
-- 
2.43.0


From 2d40fa9e0e53b5948e2e446f0386b7b57d0b4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 59/62] fix: keep the colours and the alpha of pictures that
 start with a gray layer in ora.Encode

---
 ora/encode.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index 0af0da8..9e394df 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -133,6 +134,8 @@ func toGroup(m image.Image) image.Image {
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	var fw io.Writer
 
+	m = withAlpha(m)
+
 	if _, err := writeStack(e, lim, 0); err != nil {
 		return err
 	} else if err = e.EncodeToken(xml.EndElement{
@@ -164,6 +167,34 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 	return png.Encode(fw, m)
 }
 
+// combined is an image that is made of others, and may have other colours and
+// less opacity than the image that its color model is that of.
+type combined struct {
+	image.Image
+	model color.Model
+}
+
+// ColorModel returns a color model with colours and alpha.
+func (c combined) ColorModel() color.Model { return c.model }
+
+// withAlpha makes sure that the colours and the alpha of an image get stored, as
+// a PNG of an image with a gray color model has neither.
+func withAlpha(m image.Image) image.Image {
+	switch m.(type) {
+	case *image.Gray, *image.Gray16:
+		return m
+	}
+
+	switch m.ColorModel() {
+	case color.GrayModel:
+		return combined{Image: m, model: color.NRGBAModel}
+	case color.Gray16Model:
+		return combined{Image: m, model: color.NRGBA64Model}
+	}
+
+	return m
+}
+
 func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 	var (
 		err error
@@ -184,7 +215,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, lim.Image)
+		err = png.Encode(f, withAlpha(lim.Image))
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 06fb134721e25cf63ada500fcc0ea59d52826032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 60/62] fix: Opaque of GrayAlpha and PalettedAlpha sub-images
 looked at pixels beyond their bounds

---
 grayalpha.go    | 10 +++++++---
 indexedalpha.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..9838cec 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,13 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		start := g.PixOffset(g.Rect.Min.X, y)
+
+		for _, c := range g.Pix[start : start+g.Rect.Dx()] {
+			if c.A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index c6f3d5a..09e8d4a 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,9 +66,13 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return false
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		start := p.PixOffset(p.Rect.Min.X, y)
+
+		for _, c := range p.Pix[start : start+p.Rect.Dx()] {
+			if c.A != 255 {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From a0817b69f219819e2bced8987bb3383205d47fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 61/62] fix: masked groups whose layers do not start at the
 origin were moved when saved as OpenRaster

---
 misc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc.go b/misc.go
index 4b4f123..4d883a8 100644
--- a/misc.go
+++ b/misc.go
@@ -20,6 +20,12 @@ func (m MaskedImage) At(x, y int) color.Color {
 	return transparency(m.Image.At(x, y), m.Mask.GrayAt(x, y).Y)
 }
 
+// Bounds returns the limits of the mask, as nothing shows outside of it. Those
+// of a masked group of layers need not start where the group does.
+func (m MaskedImage) Bounds() image.Rectangle {
+	return m.Mask.Bounds()
+}
+
 func (m MaskedImage) crop(r image.Rectangle) MaskedImage {
 	mask, _ := m.Mask.SubImage(r).(*image.Gray)
 	mask.Rect = mask.Rect.Sub(r.Min)
-- 
2.43.0


From 1823eddf3ae5e0f7c3430b829d5af7fb071e270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:19 +0000
Subject: [PATCH 62/62] fix: ignore the attributes of other namespaces in
 ora.Decode

---
 ora/decode.go | 4 ++++
 ora/stack.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index 1b5448a..69ce239 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -75,6 +75,10 @@ func (d *decoder) getDimensions() error {
 				var w, h bool
 
 				for _, attr := range se.Attr {
+					if attr.Name.Space != "" {
+						continue
+					}
+
 					switch attr.Name.Local {
 					case "w":
 						d.limits.X, err = strconv.Atoi(attr.Value)
diff --git a/ora/stack.go b/ora/stack.go
index 06a3d7d..2ca35f4 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -114,6 +114,10 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 	var source string
 
 	for _, a := range s.Attr {
+		if a.Name.Space != "" {
+			continue
+		}
+
 		switch a.Name.Local {
 		case "name":
 			l.Name = a.Value
-- 
2.43.0

