From ed6579a9e9a1b77e40dbba97ab2b7d0144b19628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/25] fix: choose the lowest mask index on equal scores

The scores are read in the order the mask workers finished, so a tie
made the generated symbol depend on goroutine scheduling.
---
 qrcode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..cb74101 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -707,7 +707,9 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// the scores arrive in the order workers finished, so break ties by mask index
+		// to keep the result independent of scheduling.
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From 96f96212c1dadb93364bffddea048043a767cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 02/25] fix: do not choose kanji mode for texts starting with
 alphanumerics
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The characters before the first kanji were never checked against kanji
mode, so a text like "1日本" was silently encoded into a corrupt symbol.
---
 chardet.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/chardet.go b/chardet.go
index 8035b9f..333fe31 100644
--- a/chardet.go
+++ b/chardet.go
@@ -59,7 +59,7 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 
 	// Loop to check each character in raw data,
 	// from low mode to higher while current mode could bear the input data.
-	for _, r := range raw {
+	for i, r := range raw {
 	reAnalyze:
 		// issue#28 @borislavone reports this bug.
 		// FIXED(@yeqown): next encMode analyzeVersionAuto func did not check the previous byte,
@@ -72,6 +72,14 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 			break
 		}
 
+		// kanji mode does not contain the characters of numeric and alphanumeric modes, so it
+		// could not bear the characters which have been analyzed already.
+		if mode == EncModeKanji && i > 0 {
+			if nomore := next(); nomore {
+				break
+			}
+		}
+
 		goto reAnalyze
 	}
 
-- 
2.43.0


From 5d5aeb238cb3a3cff7094499c8846811221146bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 03/25] fix: accept named string and byte slice types

New and NewWith are constrained by ~string | ~[]byte, but panicked for
any defined type.
---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index cb74101..4e397b8 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From 0208774429b923a9af68ca59ed2dd2077ab07d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 04/25] fix: return an error for unsupported encoding modes

With an explicit version the unsupported mode was not noticed before
newEncoder, which panics.
---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 4e397b8..e1409f8 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("unsupported encoding mode: %s", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From f2cb0b1a5e26f05c6db58634c536e842187c325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 05/25] fix: compare colors only in mask penalty rules 2 and 3

Both rules are about modules of the same color, but the module type was
compared as well, so areas and patterns touching function modules were
missed.
---
 mask_evaluation.go |  7 ++++---
 utilities.go       | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..fafc46d 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
@@ -113,8 +113,9 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		// only the color matters, no matter which type the module is.
+		col := toDataValues(mat.Col(i))
+		row := toDataValues(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
diff --git a/utilities.go b/utilities.go
index 5ec026a..e99573a 100644
--- a/utilities.go
+++ b/utilities.go
@@ -6,6 +6,20 @@ func samestate(s1, s2 qrvalue) bool {
 	return s1.qrbool() == s2.qrbool()
 }
 
+// toDataValues returns a copy of values, in which every one is replaced by the data value of
+// the same color.
+func toDataValues(values []qrvalue) []qrvalue {
+	out := make([]qrvalue, len(values))
+	for i, v := range values {
+		out[i] = QRValue_DATA_V0
+		if v.qrbool() {
+			out[i] = QRValue_DATA_V1
+		}
+	}
+
+	return out
+}
+
 func abs(x int) int {
 	if x < 0 {
 		return -x
-- 
2.43.0


From e971c6959d85522880393b4b28ad1d5af4ff8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/25] fix: determine the surrounding multiples of five in
 penalty rule 4

Any ratio in [45%, 46%) or [55%, 56%) was treated as the exact multiple,
so the penalty was off by one step.
---
 mask_evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index fafc46d..12c7ea8 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -161,7 +161,8 @@ func rule4(mat *Matrix) int {
 
 	ratio := (dark * 100) / total // in range [0, 100]
 	step := 0
-	if ratio%5 == 0 {
+	// only an exact multiple of 5 percent, 45.7% is between 45% and 50%.
+	if (dark*100)%(total*5) == 0 {
 		step = 1
 	}
 
-- 
2.43.0


From ee7f97cff1d9f925bc9bf972fbfe1ee4592ef670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/25] fix: do not change the background color option while
 drawing

A writer with a transparent background drew a different image (all black
as JPEG) the second time it was used, and concurrent uses raced.
---
 writer/standard/image_option.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..261b1a5 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,11 +149,8 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
 		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		return color.RGBA{}
 	}
 	rgba = oo.bgColor
 
-- 
2.43.0


From d1c61ce7140a2f96ec35934f4e797dc97927f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 08/25] fix: truncate the output file of the compressed writer

Writing over a longer file left the tail of its old content behind the
image.
---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 63bceb300d277b9135231d0a5d34f2f50d4da5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/25] fix: exit with a non-zero status when the command fails

---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 8bcc048635409617fee9a9a9b151a550814123ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/25] fix: report invalid arguments of generateQRCode as an
 error result

A missing or ill-typed option field, or an invalid color, panicked and
ended the wasm program, so that every later call failed.
---
 cmd/wasm/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..07a3c1b 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,6 +41,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		// a panic would end the whole wasm program, and every later call fails.
+		if p := recover(); p != nil {
+			r.setError(errors.Errorf("invalid arguments: %v", p))
+		}
 		v = r.JSValue()
 	}()
 
-- 
2.43.0


From cea5095ca8d4461be50ea0b786e1461090596bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 11/25] fix: clear the safe zone at the modules it covers

The bitmap is indexed by row first. With a logo that is not square, or
borders that differ, shapes were told about the wrong neighbours, and shapes
which look at their own bit left modules outside the safe zone out.
---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From d916ef210b26d35cef4bf6fc281e71b176d791de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 12/25] fix: center logo images whose bounds do not start at
 the origin

---
 writer/standard/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..df4b971 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,8 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// an image's bounds do not have to start at (0, 0)
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From d0378d92f6c1c96d38ba64394442f2125f80abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 13/25] fix: refuse invalid flag values with an error

Borders which are no four numbers from 0 to 255 made the command panic, and
block sizes above 255 were silently cut to eight bits.
---
 cmd/qrcode/app.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..ffcd3cf 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -41,7 +42,11 @@ func newApp() *cli.App {
 	app.Copyright = copyright
 	app.Flags = prepareFlags()
 	app.Action = func(c *cli.Context) error {
-		genCtx := parseGenerateContextFrom(c)
+		genCtx, err := parseGenerateContextFrom(c)
+		if err != nil {
+			return err
+		}
+
 		return generate(genCtx)
 	}
 
@@ -128,14 +133,19 @@ func (foo fileOutputOptions) applyOptions() []standard.ImageOption {
 
 type terminalOutputOptions struct{}
 
-func parseGenerateContextFrom(c *cli.Context) *generateContext {
+func parseGenerateContextFrom(c *cli.Context) (*generateContext, error) {
+	block := c.Uint("block")
+	if block > math.MaxUint8 {
+		return nil, errors.New("invalid block size, want: uint8")
+	}
+
 	genCtx := &generateContext{
 		text: c.Args().First(),
 		mode: writerMode_FILE,
 		FOO: &fileOutputOptions{
 			output:        c.String("output"),
 			outputSuffix:  strings.TrimPrefix(filepath.Ext(c.String("output")), "."),
-			blockSize:     uint8(c.Uint("block")),
+			blockSize:     uint8(block),
 			borders:       [4]int{},
 			isCircleShape: c.Bool("circle"),
 			transparent:   c.Bool("transparent"),
@@ -153,17 +163,17 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 	borders := c.String("borders")
 	arr := strings.Split(borders, ",")
 	if len(arr) != 4 {
-		panic("invalid borders format, want: uint8,uint8,uint8,uint8")
+		return nil, errors.New("invalid borders format, want: uint8,uint8,uint8,uint8")
 	}
 	for i, s := range arr {
 		v, err := strconv.ParseUint(s, 10, 8)
 		if err != nil {
-			panic("invalid borders format, want: uint8")
+			return nil, errors.New("invalid borders format, want: uint8")
 		}
 		genCtx.FOO.borders[i] = int(v)
 	}
 
-	return genCtx
+	return genCtx, nil
 }
 
 func prepareFlags() []cli.Flag {
-- 
2.43.0


From 61bc77621fa0050618eff1426f40e20c28bb236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 14/25] fix: leave the caller's colour stops as they are

NewGradient sorted the slice it was given.
---
 writer/standard/gradient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/standard/gradient.go b/writer/standard/gradient.go
index 52283f4..57a8b0e 100644
--- a/writer/standard/gradient.go
+++ b/writer/standard/gradient.go
@@ -25,8 +25,9 @@ type LinearGradient struct {
 }
 
 // NewGradient creates a new LinearGradient with the specified angle (in degrees) and color stops.
-// The stops are sorted in ascending order of T.
+// The stops are sorted in ascending order of T; the caller's stops are left as they are.
 func NewGradient(angle float64, stops ...ColorStop) *LinearGradient {
+	stops = append([]ColorStop(nil), stops...)
 	sort.Slice(stops, func(i, j int) bool {
 		return stops[i].T < stops[j].T
 	})
-- 
2.43.0


From da36a7b7efe5fe4d98a82b60b9660625c6b01a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 15/25] fix: imgkit.Save leaves unsupported files alone and
 reports failing closes

The file was created, or emptied, before its extension was found to be
unsupported, and an error of closing it was dropped.
---
 writer/standard/imgkit/io.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/writer/standard/imgkit/io.go b/writer/standard/imgkit/io.go
index fcb5670..b33da62 100644
--- a/writer/standard/imgkit/io.go
+++ b/writer/standard/imgkit/io.go
@@ -4,6 +4,7 @@ import (
 	"image"
 	"image/jpeg"
 	"image/png"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -27,21 +28,26 @@ func Read(path string) (img image.Image, err error) {
 }
 
 // Save saves the image to the given path.
-func Save(img image.Image, filename string) error {
-	fd, err := os.Create(filename)
-	if err != nil {
-		return err
-	}
-	defer fd.Close()
-
+func Save(img image.Image, filename string) (err error) {
+	var encode func(w io.Writer) error
 	switch filepath.Ext(filename) {
 	case ".jpg", ".jpeg":
-		err = jpeg.Encode(fd, img, nil)
+		encode = func(w io.Writer) error { return jpeg.Encode(w, img, nil) }
 	case ".png":
-		err = png.Encode(fd, img)
+		encode = func(w io.Writer) error { return png.Encode(w, img) }
 	default:
-		err = errors.New("unsupported image format, jpg or png only")
+		return errors.New("unsupported image format, jpg or png only")
+	}
+
+	fd, err := os.Create(filename)
+	if err != nil {
+		return err
 	}
+	defer func() {
+		if closeErr := fd.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
-	return err
+	return encode(fd)
 }
-- 
2.43.0


From 223e1367f193da9553934898488d63a7d0f99121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 16/25] fix: report a terminal which cannot be opened as an
 error of Save

terminal.New panicked.
---
 writer/terminal/writer.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/writer/terminal/writer.go b/writer/terminal/writer.go
index 1a4875f..223aaed 100644
--- a/writer/terminal/writer.go
+++ b/writer/terminal/writer.go
@@ -11,23 +11,28 @@ var _ qrcode.Writer = (*Writer)(nil)
 
 // Writer implements qrcode.Writer based on termbox to print QRCode into
 // terminal / console.
-type Writer struct{}
+type Writer struct {
+	// err is why the terminal could not be opened, Write reports it.
+	err error
+}
 
 func New() *Writer {
 	w := &Writer{}
-	w.init()
+	w.err = w.init()
 
 	return w
 }
 
-func (w Writer) init() {
+func (w Writer) init() error {
 	err := termbox.Init()
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	termbox.SetInputMode(termbox.InputEsc)
 	termbox.SetOutputMode(termbox.Output256)
+
+	return nil
 }
 
 func (w Writer) preDraw(width, height, padding int, bg termbox.Attribute) {
@@ -54,6 +59,10 @@ func (w Writer) Write(mat qrcode.Matrix) error {
 	//_ = height
 	//_ = whratio
 
+	if w.err != nil {
+		return w.err
+	}
+
 	ww, hh := mat.Width(), mat.Height()
 	bg := termbox.ColorWhite
 	fg := termbox.ColorBlack
@@ -105,6 +114,10 @@ wait:
 }
 
 func (w Writer) Close() error {
+	if w.err != nil {
+		return nil // it was never opened
+	}
+
 	termbox.Close()
 
 	return nil
-- 
2.43.0


From 8741e1672d4d65edf98ad9ea6d83b1bb06fd8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 17/25] fix: Col gives a copy of the column

It gave the matrix's own storage, so a writer which changes what it was given
changed the symbol.
---
 matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 81d0a9a..0f1c4e4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -162,7 +162,9 @@ func (m *Matrix) Col(cur int) []qrvalue {
 		return nil
 	}
 
-	return m.mat[cur]
+	col := make([]qrvalue, m.height)
+	copy(col, m.mat[cur])
+	return col
 }
 
 // Bitmap outputs the QR Code as a matrix of pixels, each represented by a single bit.
-- 
2.43.0


From e3f3bd4c3b1f0e1eddf35e8955aabf8651d3fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 18/25] fix: imgkit.Gray and Binaryzation keep pictures whose
 bounds do not start at 0,0

---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 4799802c5c1a0cb216be18ccb9cddb711198aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 19/25] fix: HStripeBlock draws stripes of the width its ratio
 says

---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From 2d32f31992d33803f093a4b69ed07fbd59a16d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 20/25] fix: a transparent background is pre-multiplied,
 translucent logos and edges keep their colours

---
 writer/standard/image_option.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 261b1a5..693921b 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,12 +72,15 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
-	bg := oo.bgColor
 	if oo.bgTransparent {
-		bg.A = 0x00
+		// JPEG has no transparency, it shows the background color.
+		if _, ok := oo.imageEncoder.(jpegEncoder); !ok {
+			// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
+			return color.RGBA{}
+		}
 	}
 
-	return bg
+	return oo.bgColor
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
-- 
2.43.0


From 899b8a606c332c01b4495c28773bbde550921109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 21/25] fix: keep the upper eight bits of colours which are not
 color.RGBA

color.Color.RGBA returns components of 16 bits; WithFgColor and WithBgColor
used the lower eight, so YCbCr, CMYK and 64 bit colours became others.
---
 writer/standard/image_option_api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer/standard/image_option_api.go b/writer/standard/image_option_api.go
index a637bc0..15c6865 100644
--- a/writer/standard/image_option_api.go
+++ b/writer/standard/image_option_api.go
@@ -41,7 +41,7 @@ func WithBgColor(c color.Color) ImageOption {
 			return
 		}
 
-		oo.bgColor = parseFromColor(c)
+		oo.bgColor = color.RGBAModel.Convert(c).(color.RGBA)
 	})
 }
 
@@ -63,7 +63,7 @@ func WithFgColor(c color.Color) ImageOption {
 			return
 		}
 
-		oo.qrColor = parseFromColor(c)
+		oo.qrColor = color.RGBAModel.Convert(c).(color.RGBA)
 	})
 }
 
-- 
2.43.0


From 7ab4318e761d9ef3698d40fdeab713be7ea007ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:35 +0000
Subject: [PATCH 22/25] fix: refuse contents which are no string in the
 WebAssembly function

js.Value.String gives a description such as <number: 5> for other types,
which was encoded as if it were the content.
---
 cmd/wasm/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 07a3c1b..eebe144 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -48,6 +48,11 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 		v = r.JSValue()
 	}()
 
+	if len(args) > 0 && args[0].Type() != js.TypeString {
+		r.setError(errors.New("invalid arguments: content must be a string"))
+		return
+	}
+
 	switch len(args) {
 	case 0:
 		r.setError(errors.New("no args"))
-- 
2.43.0


From 006f199487edf57511f141a624e26e704f1c1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 23/25] fix: do not cut widths and modes to eight bits in the
 WebAssembly function

A block width of 300 was drawn as 44, and the mode 260 was taken for 4.
---
 cmd/wasm/main.go  |  8 ++++----
 cmd/wasm/types.go | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index eebe144..20bda0a 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -66,10 +66,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 		opt = optionFromJSValue(args[1])
 	}
 
-	//if err := opt.validate(); err != nil {
-	//	r.setError(errors.Wrap(err, "invalid option"))
-	//	return
-	//}
+	if err := opt.validate(); err != nil {
+		r.setError(errors.Wrap(err, "invalid option"))
+		return
+	}
 
 	qrc, err := qrcode.NewWith(srcContent, opt.encodeOptions()...)
 	if err != nil {
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..3957403 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -6,8 +6,10 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io"
+	"math"
 	"syscall/js"
 
+	"github.com/pkg/errors"
 	"github.com/yeqown/go-qrcode/v2"
 	stdw "github.com/yeqown/go-qrcode/writer/standard"
 )
@@ -15,7 +17,7 @@ import (
 // encodeOption refers to github.com/yeqown/go-qrcode/v2.encodingOption
 type encodeOption struct {
 	version int    // encodeVersion
-	mode    uint8  // encodeMode specifies which encMode to use (0/1/2/3).
+	mode    int    // encodeMode specifies which encMode to use (0/1/2/3).
 	ecLevel string // encodeECLevel specifies which ecLevel to use (L/M/Q/H)
 }
 
@@ -24,7 +26,7 @@ type outputOption struct {
 	bgColor       string // outputBgColor is the background color of the QR code image.
 	bgTransparent bool   // outputBgTransparent indicates whether the background color is transparent.
 	qrColor       string // outputQrColor is the foreground color of the QR code.
-	qrWidth       uint8  // outputQrWidth is the width of the QR code.
+	qrWidth       int    // outputQrWidth is the width of the QR code.
 	circleShape   bool   // outputCircleShape indicates whether to draw the qr block in circle shape.
 	imageEncoder  string // outputImageEncoder specifies file format would be encoded the QR image. (jpg/jpeg/png)
 	margin        int    // outputMargin is the border width of the output image.
@@ -47,14 +49,14 @@ func optionFromJSValue(option js.Value) *genOption {
 	return &genOption{
 		encodeOption: encodeOption{
 			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
+			mode:    option.Get("encodeMode").Int(),
 			ecLevel: option.Get("encodeECLevel").String(),
 		},
 		outputOption: outputOption{
 			bgColor:       option.Get("outputBgColor").String(),
 			bgTransparent: option.Get("outputBgTransparent").Bool(),
 			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
+			qrWidth:       option.Get("outputQrWidth").Int(),
 			circleShape:   option.Get("outputCircleShape").Bool(),
 			imageEncoder:  option.Get("outputImageEncoder").String(),
 			margin:        option.Get("outputMargin").Int(),
@@ -68,6 +70,10 @@ func (o *genOption) validate() error {
 		return nil
 	}
 
+	if o.outputOption.qrWidth < 0 || o.outputOption.qrWidth > math.MaxUint8 {
+		return errors.New("invalid outputQrWidth, want: uint8")
+	}
+
 	return nil
 }
 
@@ -83,13 +89,13 @@ func (o *genOption) encodeOptions() []qrcode.EncodeOption {
 	}
 
 	switch o.encodeOption.mode {
-	case uint8(qrcode.EncModeAlphanumeric):
+	case int(qrcode.EncModeAlphanumeric):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric))
-	case uint8(qrcode.EncModeNumeric):
+	case int(qrcode.EncModeNumeric):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeNumeric))
-	case uint8(qrcode.EncModeByte):
+	case int(qrcode.EncModeByte):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeByte))
-	case uint8(qrcode.EncModeKanji):
+	case int(qrcode.EncModeKanji):
 		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeKanji))
 	}
 
@@ -124,7 +130,7 @@ func (o *genOption) outputOptions() []stdw.ImageOption {
 		out = append(out, stdw.WithFgColorRGBHex(o.outputOption.qrColor))
 	}
 	if o.outputOption.qrWidth != 0 {
-		out = append(out, stdw.WithQRWidth(o.outputOption.qrWidth))
+		out = append(out, stdw.WithQRWidth(uint8(o.outputOption.qrWidth)))
 	}
 	if o.outputOption.circleShape {
 		out = append(out, stdw.WithCircleShape())
-- 
2.43.0


From b63b0ce1bebd87a5a7b68cdc1be36d9df2bee4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:42 +0000
Subject: [PATCH 24/25] fix: a halftone picture hid the symbol when blocks are
 narrow

The parts of a block began at fractions of pixels and their size was cut to
whole pixels. With blocks of 4 or 5 pixels nothing of the module itself was
left unmixed, and below 3 pixels the data modules were not drawn at all.
---
 writer/standard/writer.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index df4b971..1b979ab 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -129,11 +129,9 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	}
 	shape := opt.getShape()
 
-	var (
-		halftoneImg image.Image
-		halftoneW   = float64(opt.qrBlockWidth()) / 3.0
-	)
-	if opt.halftoneImg != nil {
+	var halftoneImg image.Image
+	// a block which is narrower than 3 pixels could not be divided into 3x3 parts.
+	if opt.halftoneImg != nil && opt.qrBlockWidth() >= 3 {
 		halftoneImg = imgkit.Binaryzation(
 			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
 			60,
@@ -194,13 +192,14 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 			ctx2 := &DrawContext{
 				Context: ctx.Context,
-				w:       int(halftoneW),
-				h:       int(halftoneW),
 			}
+			// halftoneEdge is where the i-th part of the block begins, in whole pixels.
+			halftoneEdge := func(i int) int { return (i*opt.qrBlockWidth() + 1) / 3 }
 			// only halftone image enabled and current block is Data.
 			for i := 0; i < 3; i++ {
 				for j := 0; j < 3; j++ {
-					ctx2.x, ctx2.y = ctx.x+float64(i)*halftoneW, ctx.y+float64(j)*halftoneW
+					ctx2.x, ctx2.y = ctx.x+float64(halftoneEdge(i)), ctx.y+float64(halftoneEdge(j))
+					ctx2.w, ctx2.h = halftoneEdge(i+1)-halftoneEdge(i), halftoneEdge(j+1)-halftoneEdge(j)
 					if i == 1 && j == 1 {
 						ctx2.color = ctx.color
 					} else {
-- 
2.43.0


From 341994c9ef56d7e3350210f84d78b2ac95498717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 25/25] fix: a translucent background colour covered light
 modules twice

---
 writer/standard/image_option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 693921b..aa75fcc 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -155,6 +155,10 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
 		return color.RGBA{}
 	}
+	if oo.bgColor.A != 255 {
+		// the background is there already, a translucent color would cover it twice.
+		return color.RGBA{}
+	}
 	rgba = oo.bgColor
 
 	return rgba
-- 
2.43.0

