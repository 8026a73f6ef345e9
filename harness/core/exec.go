package core

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/urfave/cli/v2"
	qrcli "github.com/yeqown/go-qrcode/cmd/qrcode"
	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
	"github.com/yeqown/go-qrcode/writer/terminal"

	wasm "wasm"

	_ "verifgen"

	"verifsim/sim"
	"verifsim/simjs"
	"verifsim/simos"
	"verifsim/simruntime"
	"verifsim/simtermbox"
)

// Res is the recorded outcome of one operation.
type Res struct {
	Client, Idx int
	Op          *Op
	Start, End  uint64
	Done        bool
	Err         string
	Failed      bool // an error was returned
	MkFailed    bool // the writer could not be made
	Skip        bool // there was nothing to do it with
	Panic       string
	Nil         bool // New returned neither a symbol nor an error
	Dim         int
	BM          string
	Types       [][]uint8
	Bad         string
	Sink        *Sink
	Rec         *Rec
	Handle      *simos.File
	File        []byte
	HasFile     bool
	Shape       *ShapeLog
	Kit         *KitRes
	Exit        int
	Killed      bool
	Outs        []string
	RealOut     bool // third-party code wrote to the real standard streams
	JS          *JSRes
	Attr        [7]int
	Steps0      uint64
	Live        int
	Term        *simtermbox.Term
	BufFrom     int // length of the sink before the operation
	BufTo       int // and after it
	Failed0     int // refused writes of the sink before the operation
	Panics0     int
	Closes0     int
	Ended       int // number of operations which had ended when this one started
	Touched     string
	FilesBefore map[string]string
	Spec        *WSpec
	Screen      []simtermbox.Cell
	TermW       int
	TermH       int
	RefOpen     int // injected failures on the path of the writer during the operation
	RefWrite    int
	RefClose    int
}

// JSRes is what a call of the JavaScript function delivered.
type JSRes struct {
	IsObject bool
	Keys     []string
	Types    map[string]string
	Success  bool
	Error    string
	Image    string
}

// Hist is the recorded history of a run.
type Hist struct {
	Run    *Run
	Res    sim.Result
	Ops    []*Res
	W      *simos.World
	Term   *simtermbox.Term
	Before map[string]string
	World0 *simos.World // what the files were before the run
	Races  int
	Pics   map[int]image.Image          // pictures the clients share
	Stops  map[int][]standard.ColorStop // colour lists the clients share
	lists  map[int][]standard.ColorStop // the same, before
	tasks  []*sim.Task                  // of the clients
}

// shareStops makes the colour lists which several options are given.
func (h *Hist) shareStops(ops []*Op) {
	for _, op := range ops {
		if op.Wr == nil {
			continue
		}
		h.shareStops(op.Wr.Sink.In)
		for _, o := range op.Wr.Opts {
			if o.K == "grad" && len(o.I) > 1 && h.Stops[o.I[1]] == nil {
				h.Stops[o.I[1]] = stopsOf(o)
				h.lists[o.I[1]] = stopsOf(o)
			}
		}
	}
}

// touchedStops tells which of them were changed.
func (h *Hist) touchedStops() []string {
	var out []string
	for id, l := range h.Stops {
		for i, s := range l {
			if s != h.lists[id][i] {
				out = append(out, fmt.Sprintf("the colour list handed to a gradient was changed: stop %d of %v, before %v", i, l, h.lists[id]))
				break
			}
		}
	}
	sort.Strings(out)
	return out
}

func stopsOf(o IOpt) []standard.ColorStop {
	var st []standard.ColorStop
	for i := 0; i+3 < len(o.C)+1 && i/3 < len(o.F); i += 3 {
		st = append(st, standard.ColorStop{T: o.F[i/3], Color: color.RGBA{o.C[i], o.C[i+1], o.C[i+2], 255}})
	}
	return st
}

type writerSlot struct {
	w    qrcode.Writer
	spec *WSpec
	sink *Sink
	rec  *Rec
	fd   *simos.File
	shp  *ShapeLog
	mk   error
	imgs []image.Image

	stops map[int][]standard.ColorStop
	in    func(at string)
}

// learned holds the length of undisturbed outputs of this process.
var learned = map[string]int{}

type sharedOpts struct {
	slot *writerSlot
	opts []standard.ImageOption
	imgs []image.Image
	sums []uint64
}

type env struct {
	req    map[int]*Req
	share  map[int]*sharedOpts
	h      *Hist
	client int
	q      map[int]*qrcode.QRCode
	w      map[int]*writerSlot
	ops    []*Res
	pic    image.Image // the picture this client got last
	inner  int         // operations carried out from callbacks
}

type (
	namedString string
	namedBytes  []byte
)

type anyInt interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// conv makes a value of an unexported integer type.
func conv[T anyInt](_ T, v int) T { return T(v) }

// option values and lists of them which requests share
var (
	sharedVals  = map[EOpt]qrcode.EncodeOption{}
	sharedLists = map[string][]qrcode.EncodeOption{}
)

// shareEnc makes the shared option values of a run, before its clients start.
func shareEnc(ops []*Op) {
	for _, op := range ops {
		if op.Wr != nil {
			shareEnc(op.Wr.Sink.In)
		}
		if op.Req == nil || op.Req.Share == 0 {
			continue
		}
		func() {
			defer func() { _ = recover() }() // the request will meet it again
			for _, o := range op.Req.Opts {
				if sharedVals[o] == nil {
					sharedVals[o] = encOpts([]EOpt{o})[0]
				}
			}
			if k := fmt.Sprint(op.Req.Opts); op.Req.Share == 2 && sharedLists[k] == nil {
				l := make([]qrcode.EncodeOption, 0, len(op.Req.Opts)+2)
				for _, o := range op.Req.Opts {
					l = append(l, sharedVals[o])
				}
				sharedLists[k] = l
			}
		}()
	}
}

func (r *Req) encOpts() []qrcode.EncodeOption {
	if l := sharedLists[fmt.Sprint(r.Opts)]; r.Share == 2 && l != nil {
		return l
	}
	if r.Share == 0 {
		return encOpts(r.Opts)
	}
	var out []qrcode.EncodeOption
	for _, o := range r.Opts {
		v := sharedVals[o]
		if v == nil {
			v = encOpts([]EOpt{o})[0]
		}
		out = append(out, v)
	}
	return out
}

func encOpts(opts []EOpt) []qrcode.EncodeOption {
	var out []qrcode.EncodeOption
	for _, o := range opts {
		switch o.K {
		case "mode":
			out = append(out, qrcode.WithEncodingMode(conv(qrcode.EncModeByte, o.V)))
		case "ec":
			out = append(out, qrcode.WithErrorCorrectionLevel(conv(qrcode.ErrorCorrectionLow, o.V)))
		case "ver":
			out = append(out, qrcode.WithVersion(o.V))
		case "minver":
			out = append(out, qrcode.WithMinimumVersion(o.V))
		}
	}
	return out
}

func build(r *Req) (*qrcode.QRCode, error) {
	opts := r.encOpts()
	var q *qrcode.QRCode
	var err error
	switch r.Kind {
	case "b":
		b := append([]byte(nil), r.Text...)
		if r.New {
			q, err = qrcode.New(b)
		} else {
			q, err = qrcode.NewWith(b, opts...)
		}
		for i := range b {
			b[i] ^= 0x55 // the caller's buffer is the caller's again
		}
	case "nb":
		b := namedBytes(append([]byte(nil), r.Text...))
		if r.New {
			q, err = qrcode.New(b)
		} else {
			q, err = qrcode.NewWith(b, opts...)
		}
		for i := range b {
			b[i] ^= 0x55
		}
	case "ns":
		if r.New {
			q, err = qrcode.New(namedString(r.Text))
		} else {
			q, err = qrcode.NewWith(namedString(r.Text), opts...)
		}
	default:
		if r.New {
			q, err = qrcode.New(string(r.Text))
		} else {
			q, err = qrcode.NewWith(string(r.Text), opts...)
		}
	}
	return q, err
}

// ShapeLog records the calls a custom shape gets.
type ShapeLog struct {
	Calls []ShapeCall
	in    func(at string)
}

// ShapeCall is one call of Draw or DrawFinder.
type ShapeCall struct {
	Finder bool
	X, Y   float64
	W, H   int
	C      color.Color
	N      uint16
}

func (s *ShapeLog) add(c *standard.DrawContext, finder bool) {
	call(s.in, "draw")
	x, y := c.UpperLeft()
	w, h := c.Edge()
	s.Calls = append(s.Calls, ShapeCall{finder, x, y, w, h, c.Color(), c.Neighbours()})
	c.DrawRectangle(x, y, float64(w), float64(h))
	c.SetColor(c.Color())
	c.Fill()
}
func (s *ShapeLog) Draw(c *standard.DrawContext)       { s.add(c, false) }
func (s *ShapeLog) DrawFinder(c *standard.DrawContext) { s.add(c, true) }

// encoders for WithCustomImageEncoder
type customEncoder struct {
	fail string
	in   func(at string)
}

func (e customEncoder) Encode(w io.Writer, img image.Image) error {
	call(e.in, "enc")
	if e.fail != "" {
		simos.Cur().Fired["image-encoder-error"]++
		return sinkErr(e.fail)
	}
	// several writes
	if _, err := io.WriteString(w, "custom\n"); err != nil {
		return err
	}
	return png.Encode(w, img)
}

// panicShape panics when it is asked to draw its n-th module.
type panicShape struct {
	n    int
	kind string
}

func (s *panicShape) Draw(c *standard.DrawContext) {
	if s.n--; s.n <= 0 {
		simos.Cur().Fired["shape-panic"]++
		panic(panicValue(s.kind, "shape panic"))
	}
}
func (s *panicShape) DrawFinder(c *standard.DrawContext) { s.Draw(c) }

type panicEncoder struct{ kind string }

func (e panicEncoder) Encode(w io.Writer, img image.Image) error {
	simos.Cur().Fired["image-encoder-panic"]++
	panic(panicValue(e.kind, "encoder panic"))
}

// ownColor is a colour of the caller's.
type ownColor color.RGBA

func (c ownColor) RGBA() (r, g, b, a uint32) {
	return uint32(c.R)<<8 | uint32(c.G), uint32(c.G)<<8 | uint32(c.B), uint32(c.B)<<8 | uint32(c.R), 0xffff
}

// colorOf is a colour in the model which the option names.
func colorOf(o IOpt) color.Color {
	c := rgba(o.C)
	wide := func(hi, lo uint8) uint16 { return uint16(hi)<<8 | uint16(lo) }
	switch o.S {
	case "rgba64":
		return color.RGBA64{wide(c.R, c.B), wide(c.G, c.R), wide(c.B, c.G), 0xffff}
	case "nrgba64":
		return color.NRGBA64{wide(c.R, c.G), wide(c.G, c.B), wide(c.B, c.R), 0xffff}
	case "cmyk":
		v := color.CMYK{}
		v.C, v.M, v.Y, v.K = color.RGBToCMYK(c.R, c.G, c.B)
		return v
	case "ycbcr":
		v := color.YCbCr{}
		v.Y, v.Cb, v.Cr = color.RGBToYCbCr(c.R, c.G, c.B)
		return v
	case "own":
		return ownColor(c)
	}
	return color.NRGBA{c.R, c.G, c.B, 255}
}

func rgba(c []uint8) color.RGBA {
	var v [4]uint8
	v[3] = 255
	copy(v[:], c)
	return color.RGBA{v[0], v[1], v[2], v[3]}
}

func imgSum(m image.Image) uint64 {
	h := uint64(14695981039346656037)
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, a := m.At(x, y).RGBA()
			h = (h ^ uint64(r)<<48 ^ uint64(g)<<32 ^ uint64(bl)<<16 ^ uint64(a)) * 1099511628211
		}
	}
	return h
}

func (e *env) options(ws *writerSlot, sp *WSpec) []standard.ImageOption {
	if so := e.share[sp.Share]; sp.Share > 0 && so != nil {
		ws.shp = so.slot.shp
		return so.opts
	}
	return imgOpts(ws, sp.Opts)
}

func imgOpts(ws *writerSlot, opts []IOpt) []standard.ImageOption {
	var out []standard.ImageOption
	MakeImage := func(s *ImgSpec) image.Image {
		m := MakeImage(s)
		ws.imgs = append(ws.imgs, m)
		return m
	}
	for _, o := range opts {
		switch o.K {
		case "bgt":
			out = append(out, standard.WithBgTransparent())
		case "bg":
			out = append(out, standard.WithBgColor(rgba(o.C)))
		case "bghex":
			out = append(out, standard.WithBgColorRGBHex(o.S))
		case "fg":
			out = append(out, standard.WithFgColor(rgba(o.C)))
		case "fgn":
			out = append(out, standard.WithFgColor(colorOf(o)))
		case "bgn":
			out = append(out, standard.WithBgColor(colorOf(o)))
		case "fghex":
			out = append(out, standard.WithFgColorRGBHex(o.S))
		case "grad":
			st := stopsOf(o)
			if len(o.I) > 1 && ws.stops != nil { // a list of the caller
				st = ws.stops[o.I[1]]
			}
			out = append(out, standard.WithFgGradient(standard.NewGradient(float64(o.I[0]), st...)))
		case "logo":
			out = append(out, standard.WithLogoImage(MakeImage(o.M)))
		case "logopng":
			out = append(out, standard.WithLogoImageFilePNG(o.S))
		case "logojpeg":
			out = append(out, standard.WithLogoImageFileJPEG(o.S))
		case "width":
			out = append(out, standard.WithQRWidth(uint8(o.I[0])))
		case "circle":
			out = append(out, standard.WithCircleShape())
		case "shape":
			if kind, ok := strings.CutPrefix(o.S, "panic"); ok {
				out = append(out, standard.WithCustomShape(&panicShape{append(o.I, 1)[0], kind}))
				break
			}
			ws.shp = &ShapeLog{in: ws.in}
			out = append(out, standard.WithCustomShape(ws.shp))
		case "shapes":
			out = append(out, standard.WithCustomShape(assemble(o)))
		case "png":
			out = append(out, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		case "jpeg":
			out = append(out, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		case "enc":
			if kind, ok := strings.CutPrefix(o.S, "panic"); ok {
				out = append(out, standard.WithCustomImageEncoder(panicEncoder{kind}))
			} else {
				out = append(out, standard.WithCustomImageEncoder(customEncoder{o.S, ws.in}))
			}
		case "border":
			out = append(out, standard.WithBorderWidth(o.I...))
		case "halftone":
			out = append(out, standard.WithHalftone(o.S))
		case "halftoneimg":
			out = append(out, standard.WithHalftoneImage(MakeImage(o.M)))
		case "worldimg":
			switch {
			case o.img == nil:
			case o.S == "halftone":
				out = append(out, standard.WithHalftoneImage(o.img))
			default:
				out = append(out, standard.WithLogoImage(o.img))
			}
		case "mult":
			out = append(out, standard.WithLogoSizeMultiplier(o.I[0]))
		case "safe":
			out = append(out, standard.WithLogoSafeZone())
		}
	}
	return out
}

// assemble makes a ready-made shape: S is finder+block.
func assemble(o IOpt) standard.IShape {
	fi, bl, _ := strings.Cut(o.S, "+")
	size := 1.0
	if len(o.F) > 0 {
		size = o.F[0]
	}
	finder := shapes.SquareFinder()
	if fi == "R" {
		finder = shapes.RoundedFinder()
	}
	var block func(*standard.DrawContext)
	switch bl {
	case "liquid":
		block = shapes.LiquidBlock()
	case "chain":
		block = shapes.ChainBlock()
	case "hstripe":
		block = shapes.HStripeBlock(size)
	case "vstripe":
		block = shapes.VStripeBlock(size)
	case "hchain":
		block = shapes.HChainBlock()
	case "vchain":
		block = shapes.VChainBlock()
	case "circle":
		block = shapes.CircleBlocks(size)
	default:
		block = shapes.SquareBlocks(size)
	}
	return shapes.Assemble(finder, block)
}

// fromWorld fills in the pictures which a reader of the simulated disk would
// get, decoded by the harness itself.
func (e *env) fromWorld(sp *WSpec) *WSpec {
	for i := range sp.Opts {
		if sp.Opts[i].K == "worldimg" {
			c := *sp
			c.Opts = append([]IOpt(nil), sp.Opts...)
			for j := range c.Opts {
				if c.Opts[j].K == "worldimg" {
					c.Opts[j].img = worldImage(e.h.W, &c.Opts[j])
				}
			}
			return &c
		}
	}
	return sp
}

func worldImage(w *simos.World, o *IOpt) image.Image {
	data, ok := w.GetFile(o.F2)
	if !ok || o.F2 == "" {
		return nil
	}
	return readImage(w, o, data, w.Faults)
}

func readImage(w *simos.World, o *IOpt, data []byte, faults []*simos.Fault) image.Image {
	for _, f := range faults {
		if f.Path == "" || w.Abs(f.Path) != w.Abs(o.F2) {
			continue
		}
		switch {
		case f.Op == "open":
			return nil
		case f.Op == "read" && f.At < int64(len(data)):
			data = data[:f.At]
		}
	}
	var m image.Image
	var err error
	switch o.S {
	case "logopng":
		m, err = png.Decode(bytes.NewReader(data))
	case "logojpeg":
		m, err = jpeg.Decode(bytes.NewReader(data))
	default:
		m, _, err = image.Decode(bytes.NewReader(data))
	}
	if err != nil {
		return nil
	}
	return m
}

func (e *env) mkWriter(sp *WSpec) *writerSlot {
	sp = e.fromWorld(sp)
	ws := &writerSlot{spec: sp, stops: e.h.Stops, in: e.inside(sp.Sink)}
	switch sp.Kind {
	case "std":
		var wc io.WriteCloser
		if sp.Seek {
			ws.fd = simos.NewHandle(sp.Path)
			wc = ws.fd
		} else {
			ws.sink = &Sink{Spec: sp.Sink, in: ws.in}
			wc = ws.sink
		}
		ws.w = standard.NewWithWriter(wc, e.options(ws, sp)...)
	case "stdfile":
		w, err := standard.New(sp.Path, e.options(ws, sp)...)
		ws.mk = err
		if err == nil {
			ws.w = w
		}
	case "comp":
		var wc io.WriteCloser
		if sp.Seek {
			ws.fd = simos.NewHandle(sp.Path)
			wc = ws.fd
		} else {
			ws.sink = &Sink{Spec: sp.Sink, in: ws.in}
			wc = ws.sink
		}
		ws.w = compressed.NewWithWriter(wc, &compressed.Option{Padding: sp.Pad, BlockSize: sp.Block})
	case "compfile":
		w, err := compressed.New(sp.Path, &compressed.Option{Padding: sp.Pad, BlockSize: sp.Block})
		ws.mk = err
		if err == nil {
			ws.w = w
		}
	case "file":
		if sp.Nil {
			ws.w = file.New(nil)
		} else {
			ws.fd = simos.NewHandle(sp.Path)
			ws.w = file.New(ws.fd)
		}
	case "term":
		ws.w = terminal.New()
	case "rec":
		ws.rec = &Rec{Spec: sp.Sink, in: ws.in}
		ws.w = ws.rec
	case "nil":
	}
	return ws
}

func (ws *writerSlot) fill(r *Res) {
	if ws == nil {
		return
	}
	r.Spec = ws.spec
	r.Sink, r.Rec, r.Handle, r.Shape = ws.sink, ws.rec, ws.fd, ws.shp
}

func (e *env) do(r *Res) {
	op := r.Op
	switch op.K {
	case "new":
		q, err := build(op.Req)
		if err != nil {
			r.Failed, r.Err = true, err.Error()
		}
		if q == nil && err == nil {
			r.Nil = true
		}
		e.q[op.Q] = q
		e.req[op.Q] = op.Req
		if q != nil && err == nil {
			r.Dim = q.Dimension()
		}
		if err != nil {
			e.q[op.Q] = nil
		}
	case "read":
		q := e.q[op.Q]
		if q == nil {
			return
		}
		rec := &Rec{}
		if err := q.Save(rec); err != nil {
			r.Failed, r.Err = true, err.Error()
		}
		r.Rec = rec
		r.BM = Pack(rec.BM)
		r.Types = rec.Types
		r.Bad = rec.Bad
		r.Dim = q.Dimension()
	case "mkopts":
		so := &sharedOpts{slot: &writerSlot{stops: e.h.Stops}}
		so.opts = imgOpts(so.slot, op.Wr.Opts)
		for _, m := range so.slot.imgs {
			so.sums = append(so.sums, imgSum(m))
		}
		e.share[op.N] = so
	case "chkopts": // the caller's pictures are still what they were
		if so := e.share[op.N]; so != nil {
			for i, m := range so.slot.imgs {
				if imgSum(m) != so.sums[i] {
					r.Touched = fmt.Sprintf("picture %d handed to an option was changed", i)
				}
			}
		}
	case "mkw":
		r.Spec = op.Wr
		delete(e.w, op.W)
		ws := e.mkWriter(op.Wr)
		ws.fill(r)
		if ws.mk != nil {
			r.Failed, r.MkFailed, r.Err = true, true, ws.mk.Error()
			ws.w = nil
		}
		e.w[op.W] = ws
	case "save", "write":
		q := e.q[op.Q]
		ws := e.w[op.W]
		if op.Wr != nil {
			if op.S == "snap" {
				r.FilesBefore = e.h.W.Snapshot()
			}
			sp := e.resolve(op)
			o0, w0, c0 := e.refused(sp)
			defer func() {
				o, w, c := e.refused(sp)
				r.RefOpen, r.RefWrite, r.RefClose = o-o0, w-w0, c-c0
			}()
			r.Spec = sp // also if it cannot be made
			delete(e.w, op.W)
			ws = e.mkWriter(sp)
			e.w[op.W] = ws
		}
		ws.fill(r)
		if ws == nil || q == nil {
			return
		}
		if ws.sink != nil {
			r.BufFrom, r.Failed0, r.Panics0, r.Closes0 = len(ws.sink.Buf), ws.sink.Failed, ws.sink.Panics, ws.sink.Closes
		}
		if ws.shp != nil {
			ws.shp.Calls = nil
		}
		if ws.mk != nil {
			r.Failed, r.MkFailed, r.Err = true, true, ws.mk.Error()
			break
		}
		r.Steps0 = sim.Steps()
		if err := q.Save(ws.w); err != nil {
			r.Failed, r.Err = true, err.Error()
		}
		if ws.rec != nil {
			r.BM = Pack(ws.rec.BM)
		}
	case "mutate":
		// a client which scribbles over everything it is handed
		q := e.q[op.Q]
		if q == nil {
			return
		}
		m := &mutator{}
		if err := q.Save(m); err != nil {
			r.Failed, r.Err = true, err.Error()
		}
	case "imgsave", "imgread":
		e.imgkit(r)
	case "imgproc":
		e.imgproc(r)
	case "dim":
		if q := e.q[op.Q]; q != nil {
			r.Dim = q.Dimension()
		}
	case "attr":
		if ws := e.w[op.W]; ws != nil {
			if w, ok := ws.w.(*standard.Writer); ok {
				r.Spec = ws.spec
				a := w.Attribute(op.N)
				r.Attr = [7]int{a.W, a.H, a.Borders[0], a.Borders[1], a.Borders[2], a.Borders[3], a.BlockWidth}
			}
		}
	case "close":
		if ws := e.w[op.W]; ws != nil && ws.w != nil {
			if err := ws.w.Close(); err != nil {
				r.Failed, r.Err = true, err.Error()
			}
			ws.fill(r)
		}
	case "setdebug":
		qrcode.SetDebugMode()
	case "faults":
		e.h.W.Faults = clone(op.Flt)
	case "setfile":
		e.h.W.SetFile(op.S, op.F.Bytes())
	case "cli":
		e.cli(r)
	case "jsmain":
		t := sim.Go("wasm main", func() { wasm.VerifMain() })
		sim.Daemon(t)
		for i := 0; i < 100000 && simjs.Global().Get("generateQRCode").Type() != simjs.TypeFunction; i++ {
			sim.Gosched()
		}
		if simjs.Global().Get("generateQRCode").Type() != simjs.TypeFunction {
			r.Failed, r.Err = true, "generateQRCode is not registered"
		}
	case "js":
		e.js(r)
	default:
		panic("harness: unknown operation " + op.K)
	}
}

func (e *env) refused(sp *WSpec) (open, write, closed int) {
	if sp == nil || sp.Path == "" {
		return
	}
	w := e.h.W
	return w.RefusedOn(sp.Path, "open", "create"), w.RefusedOn(sp.Path, "write", "sync", "truncate"), w.RefusedOn(sp.Path, "close")
}

func (e *env) outKey(op *Op, sp *WSpec) string {
	q := e.req[op.Q]
	if q == nil || sp == nil {
		return ""
	}
	return q.Key() + "|" + sp.Key()
}

// resolve fills in the places of faults which are given relative to the length
// of the undisturbed output.
func (e *env) resolve(op *Op) *WSpec {
	sp := op.Wr
	if sp.Sink.Per == 0 && len(sp.Disk) == 0 {
		return sp
	}
	n := learned[e.outKey(op, sp)]
	c := *sp
	at := func(per int) int64 {
		v := int64(n) * int64(per) / 1000
		if v < 1 {
			v = 1
		}
		return v
	}
	if c.Sink.Per > 0 {
		if n > 0 {
			c.Sink.FailAt = at(c.Sink.Per)
		} else {
			c.Sink.FailNth = 1
		}
	}
	for _, d := range c.Disk {
		f := fault(d.Op, c.Path, d.Nth, 0, d.Err, d.Times)
		f.Kill = d.Kill
		if d.Per > 0 && n > 0 {
			f.Nth, f.At = 0, at(d.Per)-1
		} else if d.Nth == 0 {
			f.Nth = 1
		}
		e.h.W.Faults = append(e.h.W.Faults, f)
	}
	return &c
}

// learn notes the length of an undisturbed output.
func (e *env) learn(r *Res, ws *writerSlot) {
	if sim.RaceBuild || ws == nil || ws.spec == nil || r.Failed || r.Panic != "" || len(ws.spec.Disk) > 0 {
		return
	}
	k := e.outKey(r.Op, ws.spec)
	if k == "" {
		return
	}
	n := 0
	switch {
	case ws.sink != nil:
		s := ws.sink.Spec
		if s.FailNth != 0 || s.FailAt != 0 {
			return
		}
		n = r.BufTo - r.BufFrom
	case ws.spec.Path != "":
		b, _ := e.h.W.GetFile(ws.spec.Path)
		n = len(b)
	}
	if n > 0 && learned[k] == 0 {
		learned[k] = n
	}
}

type mutator struct{}

func (m *mutator) Write(mat qrcode.Matrix) error {
	bm := mat.Bitmap()
	for y := range bm {
		for x := range bm[y] {
			bm[y][x] = !bm[y][x]
		}
	}
	for y := 0; y < mat.Height(); y++ {
		row := mat.Row(y)
		for x := range row {
			row[x] ^= 1
		}
	}
	for x := 0; x < mat.Width(); x++ {
		col := mat.Col(x)
		for y := range col {
			col[y] ^= 1
		}
	}
	return nil
}
func (m *mutator) Close() error { return nil }

const cliGroup = 1

func (e *env) cli(r *Res) {
	simos.Args = append([]string{"qrcode"}, r.Op.Args...)
	r.FilesBefore = e.h.W.Snapshot()
	nOut := len(e.h.W.Outs())
	n0 := realOutLen()
	returned := false
	t := sim.Go("cli", func() {
		sim.SetGroup(cliGroup)
		defer func() {
			if p := recover(); p != nil {
				r.Panic = panicText(p)
			}
		}()
		qrcli.VerifMain()
		returned = true
	})
	sim.Join(t)
	r.Outs = append([]string(nil), e.h.W.Outs()[nOut:]...)
	r.RealOut = realOutLen() > n0
	switch {
	case r.Panic != "":
		r.Exit = 2
		r.Outs = append(r.Outs, "panic: "+r.Panic)
		sim.KillGroup(cliGroup)
	case returned:
		r.Exit = 0
		sim.KillGroup(cliGroup) // the process ends when main returns
	default:
		if c, ok := sim.ExitCode(cliGroup); ok {
			r.Exit = c
		} else {
			r.Killed = true
		}
	}
}

func jsValue(v JV) simjs.Value {
	switch v.T {
	case "null":
		return simjs.Null()
	case "bool":
		return simjs.ValueOf(v.B)
	case "num":
		return simjs.ValueOf(v.N)
	case "str":
		return simjs.ValueOf(v.S)
	case "sym":
		return simjs.Symbol(v.S)
	case "arr":
		var a []simjs.Value
		for _, x := range v.A {
			a = append(a, jsValue(x))
		}
		return simjs.NewArray(a...)
	case "obj":
		o := simjs.NewObject()
		var keys []string
		for k := range v.O {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o.Set(k, jsValue(v.O[k]))
		}
		for _, p := range v.Throw {
			o.SetThrow(p)
		}
		return o
	case "func":
		return simjs.FuncOf(func(simjs.Value, []simjs.Value) any { return nil }).Value
	}
	return simjs.Undefined()
}

func (e *env) js(r *Res) {
	args := make([]any, 0, len(r.Op.JS))
	for _, a := range r.Op.JS {
		args = append(args, jsValue(a))
	}
	v := simjs.Global().Get("generateQRCode").Invoke(args...)
	j := &JSRes{Types: map[string]string{}}
	r.JS = j
	j.IsObject = v.Type() == simjs.TypeObject
	if !j.IsObject {
		return
	}
	for _, k := range []string{"success", "error", "base64EncodedImage"} {
		j.Types[k] = v.Get(k).Type().String()
	}
	if j.Types["success"] == "boolean" {
		j.Success = v.Get("success").Bool()
	}
	if j.Types["error"] == "string" {
		j.Error = v.Get("error").String()
	}
	if j.Types["base64EncodedImage"] == "string" {
		j.Image = v.Get("base64EncodedImage").String()
	}
}

func panicText(p any) string {
	if err, ok := p.(error); ok {
		return err.Error()
	}
	return fmt.Sprint(p)
}

func (e *env) run(op *Op, idx int) *Res {
	r := &Res{Client: e.client, Idx: idx, Op: op}
	e.ops = append(e.ops, r)
	r.Start = sim.Steps()
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Panic = panicText(p)
				if r.Panic == "" {
					r.Panic = "(empty)"
				}
				if ws := e.w[op.W]; ws != nil {
					ws.fill(r)
				}
			}
		}()
		e.do(r)
	}()
	if op.K == "save" || op.K == "write" {
		ws := e.w[op.W]
		if ws != nil && ws.sink != nil {
			r.BufTo = len(ws.sink.Buf)
		}
		e.learn(r, ws)
		if ws != nil && ws.spec != nil && ws.spec.Path != "" {
			if b, ok := e.h.W.GetFile(ws.spec.Path); ok {
				r.File, r.HasFile = append([]byte(nil), b...), true
			}
		}
		if ws != nil && ws.spec != nil && ws.spec.Kind == "term" {
			r.Term = simtermbox.Cur()
			r.Screen = append([]simtermbox.Cell(nil), r.Term.Front...)
			r.TermW, r.TermH = r.Term.BW, r.Term.BH
		}
	}
	r.End = sim.Steps()
	r.Live = sim.LiveTasks()
	r.Done = true
	return r
}

// started: a simulated process has been started.
var started bool

// Exec executes one run.
func Exec(run *Run) *Hist {
	cli.OsExiter = sim.Exit
	cli.ErrWriter = simos.Stderr
	w := simos.Reset()
	h := &Hist{Run: run, W: w}
	for k, v := range run.Env {
		w.Env[k] = v
	}
	for _, d := range run.Dirs {
		w.Mkdir(d)
	}
	var names []string
	for p := range run.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		w.SetFile(p, run.Files[p].Bytes())
	}
	for p, m := range run.Modes {
		w.Restrict(p, os.FileMode(m))
	}
	w.Faults = clone(run.Faults)
	ts := simtermbox.Script{W: 200, H: 200, AutoKey: true}
	if t := run.Term; t != nil {
		ts = simtermbox.Script{W: t.W, H: t.H, AutoKey: t.AutoKey, InitErr: t.InitErr, FlushErr: t.FlushErr, FlushNth: t.FlushNth, Press: keyEvent(t.Press)}
		for _, e := range t.Events {
			ev := simtermbox.Event{}
			switch e.K {
			case "key":
				ev = keyEvent(e.P)
			case "resize":
				ev.Type, ev.Width, ev.Height = simtermbox.EventResize, e.W, e.H
			case "mouse":
				ev.Type = simtermbox.EventMouse
			case "error":
				ev.Type = simtermbox.EventError
			case "interrupt":
				ev.Type = simtermbox.EventInterrupt
			default:
				ev.Type = simtermbox.EventNone
			}
			ts.Events = append(ts.Events, ev)
		}
	}
	h.Term = simtermbox.Reset(ts)
	simjs.Reset()
	simruntime.CPUs = 4
	if run.CPUs > 0 {
		simruntime.CPUs = run.CPUs
	}
	h.Before = w.Snapshot()
	h.World0 = w.Freeze()
	h.Pics = map[int]image.Image{}
	h.Stops, h.lists = map[int][]standard.ColorStop{}, map[int][]standard.ColorStop{}
	h.shareStops(run.Setup)
	for _, ops := range run.Clients {
		h.shareStops(ops)
		h.sharePics(ops)
	}
	h.shareStops(run.Final)
	r0 := sim.RaceErrors()

	max := run.Sched.Max
	if max == 0 {
		max = 2e9
	}
	mkEnv := func(c int) *env {
		return &env{h: h, client: c, q: map[int]*qrcode.QRCode{}, w: map[int]*writerSlot{}, req: map[int]*Req{}, share: map[int]*sharedOpts{}}
	}
	main := mkEnv(-1)
	cl := make([]*env, len(run.Clients))
	h.Res = sim.Run(sim.Config{
		Seed: run.Sched.Seed, Policy: run.Sched.Policy, Param: run.Sched.Param,
		MaxSteps: max, Devs: run.Sched.Devs, KillAt: run.Sched.KillAt,
	}, func() {
		if run.Fresh || !started {
			started = true
			clear(sharedVals)
			clear(sharedLists)
			sim.Fresh()
		}
		shareEnc(run.Setup)
		for _, ops := range run.Clients {
			shareEnc(ops)
		}
		shareEnc(run.Final)
		for i, op := range run.Setup {
			main.run(op, i)
		}
		tasks := make([]*sim.Task, len(run.Clients))
		for i := range run.Clients {
			e := mkEnv(i)
			for k, v := range main.q {
				e.q[k] = v
			}
			for k, v := range main.req {
				e.req[k] = v
			}
			for k, v := range main.share {
				e.share[k] = v
			}
			for k, v := range main.w {
				e.w[k] = v
			}
			cl[i] = e
		}
		h.tasks = tasks
		for i, ops := range run.Clients {
			e, ops := cl[i], ops
			tasks[i] = sim.Go(fmt.Sprint("client ", i), func() {
				for j, op := range ops {
					e.run(op, j)
				}
			})
			if run.Group { // from before its first step on
				tasks[i].Group = cliGroup
			}
		}
		dead := false
		for _, t := range tasks {
			sim.Join(t)
			dead = dead || sim.Dead(t)
		}
		if dead {
			// the process is gone with everything its packages held: what
			// follows is a new one
			clear(sharedVals)
			clear(sharedLists)
			sim.Fresh()
			shareEnc(run.Final)
		}
		for i, op := range run.Final {
			main.run(op, len(run.Setup)+i)
		}
	})
	h.Races = sim.RaceErrors() - r0
	nSetup := len(run.Setup)
	if nSetup > len(main.ops) {
		nSetup = len(main.ops)
	}
	h.Ops = append(h.Ops, main.ops[:nSetup]...)
	for _, e := range cl {
		if e != nil {
			h.Ops = append(h.Ops, e.ops...)
		}
	}
	h.Ops = append(h.Ops, main.ops[nSetup:]...)
	for _, r := range h.Ops {
		if r.Idx >= fromCallback {
			w.Fired["library-called-from-a-callback"]++
		}
	}
	return h
}

var realOut *os.File

// HushStdout keeps third-party code from writing to the worker's real streams:
// what it writes goes to a scratch file.
func HushStdout() {
	f, err := os.CreateTemp("", "simrun-out")
	if err != nil {
		f, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err != nil {
			return
		}
	} else {
		os.Remove(f.Name())
		realOut = f
	}
	os.Stdout = f
	os.Stderr = f
}

func realOutLen() int64 {
	if realOut == nil {
		return 0
	}
	fi, err := realOut.Stat()
	if err != nil {
		return 0
	}
	return fi.Size()
}

// Digest summarises what clients could observe in a run, for determinism checks.
func (h *Hist) Digest() uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%x %d %d %d|", h.Res.Hash, h.Res.Steps, h.Res.Switches, h.Res.Tasks)
	if f := h.Res.Failure; f != nil {
		fmt.Fprintf(&b, "F%s %s|", f.Kind, f.Msg)
	}
	for _, r := range h.Ops {
		fmt.Fprintf(&b, "%d.%d %s %v %q %q %d %s %d %v|", r.Client, r.Idx, r.Op.K, r.Done, r.Err, r.Panic, r.Dim, r.BM, r.Exit, r.Outs)
		if r.Sink != nil {
			fmt.Fprintf(&b, "S%x %d %d %v|", hashStr(string(r.Sink.Buf)), r.Sink.Writes, r.Sink.Closes, r.Sink.Order)
		}
		if r.HasFile {
			fmt.Fprintf(&b, "f%x|", hashStr(string(r.File)))
		}
		if r.Kit != nil {
			fmt.Fprintf(&b, "K%x %x %x|", r.Kit.Sum, r.Kit.SumEnd, r.Kit.OutSum)
		}
		if r.JS != nil {
			fmt.Fprintf(&b, "J%v %q %x|", r.JS.Success, r.JS.Error, hashStr(r.JS.Image))
		}
	}
	snap := h.W.Snapshot()
	var ks []string
	for k := range snap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%x|", k, hashStr(snap[k]))
	}
	fmt.Fprintf(&b, "%v", h.W.Logs())
	return hashStr(b.String())
}

// keyEvent is a key press: a character, or a key by its number.
func keyEvent(p string) simtermbox.Event {
	ev := simtermbox.Event{Type: simtermbox.EventKey}
	if n, err := strconv.Atoi(strings.TrimPrefix(p, "#")); len(p) > 1 && p[0] == '#' && err == nil {
		ev.Key = simtermbox.Key(n)
		return ev
	}
	ev.Ch = 'q'
	for _, c := range p {
		ev.Ch = c
		break
	}
	return ev
}
