package core

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"

	"golang.org/x/image/draw"

	"github.com/yeqown/go-qrcode/writer/standard/imgkit"

	"verifsim/sim"
	"verifsim/simos"
)

// ownPicture is a picture of the caller's own kind; looking at it is a
// scheduling point now and then.
type ownPicture struct {
	image.Image
	every, n int
}

func (p *ownPicture) At(x, y int) color.Color {
	if p.n++; p.n%p.every == 0 {
		sim.Gosched()
	}
	return p.Image.At(x, y)
}

// ownScaler is a scaler of the caller's own kind.
type ownScaler struct{ draw.Scaler }

func (s ownScaler) Scale(dst draw.Image, dr image.Rectangle, src image.Image, sr image.Rectangle, op draw.Op, o *draw.Options) {
	sim.Gosched()
	s.Scaler.Scale(dst, dr, src, sr, op, o)
	sim.Gosched()
}

type panicScaler struct{}

func (panicScaler) Scale(draw.Image, image.Rectangle, image.Image, image.Rectangle, draw.Op, *draw.Options) {
	simos.Cur().Note("scaler-panic")
	panic(sinkError("scaler panic"))
}

func scalerOf(name string) draw.Scaler {
	switch name {
	case "nearest":
		return draw.NearestNeighbor
	case "approx":
		return draw.ApproxBiLinear
	case "bilinear":
		return draw.BiLinear
	case "catmull":
		return draw.CatmullRom
	case "own":
		return ownScaler{draw.NearestNeighbor}
	case "panic":
		return panicScaler{}
	}
	return nil
}

// plain makes the picture itself, without anything of the caller's around it.
func (p *PSpec) plain() image.Image {
	if !p.Sub {
		return MakeImage(p.Img)
	}
	s := p.Img
	b := image.Rect(s.X, s.Y, s.X+s.W, s.Y+s.H)
	m := makeImage(s, image.Rect(b.Min.X-3, b.Min.Y-2, b.Max.X+5, b.Max.Y+1))
	return m.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(b)
}

func (e *env) picture(p *PSpec) image.Image {
	if p.Last {
		return e.pic
	}
	m := e.h.Pics[p.Share]
	if m == nil {
		m = p.plain()
	}
	if p.Yield > 0 {
		m = &ownPicture{Image: m, every: p.Yield}
	}
	return m
}

// sharePics makes the pictures which several clients use.
func (h *Hist) sharePics(ops []*Op) {
	for _, op := range ops {
		if p := op.P; p != nil && p.Share > 0 && h.Pics[p.Share] == nil {
			h.Pics[p.Share] = p.plain()
		}
	}
}

// bare is the picture without the caller's wrapping: looking at it never yields.
func bare(m image.Image) image.Image {
	if o, ok := m.(*ownPicture); ok {
		return o.Image
	}
	return m
}

func (e *env) imgproc(r *Res) {
	op := r.Op
	src := e.picture(op.P)
	if src == nil {
		r.Skip = true
		return
	}
	k := &KitRes{Sum: imgSum(bare(src))}
	r.Kit = k
	before := copyOf(bare(src))
	var out image.Image
	switch op.S {
	case "gray":
		if g := imgkit.Gray(src); g != nil {
			out = g
		}
	case "bin":
		out = imgkit.Binaryzation(src, uint8(op.P.Thr))
	case "scale":
		out = imgkit.Scale(src, op.P.rect(), scalerOf(op.P.Scaler))
	case "scribble": // what a client got is its own
		if d, ok := src.(draw.Image); ok {
			b := d.Bounds()
			for i := 0; i < 50; i++ {
				d.Set(b.Min.X+i*7%max(1, b.Dx()), b.Min.Y+i*3%max(1, b.Dy()), color.RGBA{uint8(i * 5), 0, 255, 255})
			}
		}
		r.Skip = true
		return
	}
	e.pic = out
	k.Out, k.SumEnd = out, imgSum(bare(src))
	if out == nil {
		k.Want = append(k.Want, [2]string{"picture", "no picture is returned"})
		return
	}
	k.OutSum = imgSum(out)
	if m := procWrong(op, before, out); m != "" {
		k.Want = append(k.Want, [2]string{"picture", m})
	}
}

func (p *PSpec) rect() image.Rectangle {
	return image.Rect(p.Rect[0], p.Rect[1], p.Rect[0]+p.Rect[2], p.Rect[1]+p.Rect[3])
}

// copyOf keeps what a picture shows, with the full depth of its colours.
func copyOf(m image.Image) *image.RGBA64 {
	b := m.Bounds()
	c := image.NewRGBA64(b)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, a := m.At(x, y).RGBA()
			c.SetRGBA64(x, y, color.RGBA64{uint16(r), uint16(g), uint16(bl), uint16(a)})
		}
	}
	return c
}

// procWrong judges what a helper returned for a picture.
func procWrong(op *Op, src, out image.Image) string {
	b := src.Bounds()
	if op.S == "scale" {
		rect := op.P.rect()
		if out.Bounds() != rect {
			return fmt.Sprintf("the picture has the bounds %v, not %v", out.Bounds(), rect)
		}
		// the picture the caller handed over, not a copy of another kind: scalers
		// know some kinds of pictures
		first := ""
		for _, s := range []draw.Scaler{scalerOf(op.P.Scaler), draw.BiLinear} {
			if s == nil {
				s = draw.ApproxBiLinear
			}
			want := image.NewRGBA(rect)
			s.Scale(want, rect, src, b, draw.Src, nil)
			m := closePicture(out, want, 2)
			if m == "" {
				return ""
			}
			if first == "" {
				first = m
			}
			if op.P.Scaler != "" {
				break
			}
		}
		return "scaled wrongly: " + first
	}
	if out.Bounds() != b {
		return fmt.Sprintf("the picture has the bounds %v, not %v", out.Bounds(), b)
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			v := color.GrayModel.Convert(src.At(x, y)).(color.Gray)
			if op.S == "bin" {
				if int(v.Y) > op.P.Thr {
					v.Y = 255
				} else {
					v.Y = 0
				}
			}
			r1, g1, b1, a1 := out.At(x, y).RGBA()
			r2, g2, b2, a2 := v.RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 || a1 != a2 {
				return fmt.Sprintf("pixel %d,%d of %v is %v, want %v (the source is %v there)", x, y, b, out.At(x, y), v, src.At(x, y))
			}
		}
	}
	return ""
}

// closePicture compares two pictures with the same bounds; colours may differ
// by a rounding.
func closePicture(a, b image.Image, limit int) string {
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			r1, g1, b1, a1 := a.At(x, y).RGBA()
			r2, g2, b2, a2 := b.At(x, y).RGBA()
			for _, d := range [4]int{int(r1>>8) - int(r2>>8), int(g1>>8) - int(g2>>8), int(b1>>8) - int(b2>>8), int(a1>>8) - int(a2>>8)} {
				if abs(d) > limit {
					return fmt.Sprintf("pixel %d,%d is %v, want %v", x, y, a.At(x, y), b.At(x, y))
				}
			}
		}
	}
	return ""
}

func init() {
	register(&Prop{
		ID:      "C19",
		Race:    true,
		Batches: tiers(1500, 100000),
		Gen:     genProc,
		Check:   checkProc,
		Rule:    "a case is one simulated run in which one to four clients turn pictures - shared ones, parts of larger ones, pictures of a kind of their own which yield while they are looked at, pictures read from a disk with faults - into grey, black and white and other sizes, in chains, and save the results, under the race detector; non-trivial if the run was preempted or a fault fired",
		Real:    []string{"writer/standard/imgkit", "golang.org/x/image/draw", "image/png and image/jpeg"},
		Stub:    []string{"the file system (simulated world with faults)", "goroutine scheduling, sync and channels (simulator)"},
		NonTrivial: func(h *Hist) bool {
			return len(h.W.Fired) > 0 || h.Res.Preempts > 0
		},
	})
}

func genPSpec(r *RNG) *PSpec {
	p := &PSpec{Img: genKitImg(r), Sub: r.P(25)}
	if r.P(50) {
		p.Img.W, p.Img.H = 1+r.N(20), 1+r.N(20)
	}
	if r.P(4) {
		p.Img.W = 0
	}
	if p.Img.W*p.Img.H > 10000 {
		p.Img.W, p.Img.H = 100, 80
	}
	if r.P(45) {
		p.Yield = 1 + r.N(60)
	}
	return p
}

// genProcOp fills in what to do with a picture.
func genProcOp(r *RNG, p PSpec) *Op {
	op := &Op{K: "imgproc", S: Pick(r, "gray", "bin", "bin", "scale", "scale"), P: &p}
	switch op.S {
	case "bin":
		p.Thr = Pick(r, 0, 1, 60, 127, 128, 254, 255, r.N(256))
	case "scale":
		p.Scaler = Pick(r, "", "", "nearest", "approx", "bilinear", "catmull", "own", "own")
		if r.P(5) {
			p.Scaler = "panic"
		}
		p.Rect = [4]int{0, 0, 1 + r.N(40), 1 + r.N(40)}
		if r.P(30) {
			p.Rect[0], p.Rect[1] = r.N(31)-15, r.N(31)-15
		}
		if r.P(10) && p.Img != nil {
			p.Rect = [4]int{p.Img.X, p.Img.Y, p.Img.W, p.Img.H}
		}
		if r.P(3) {
			p.Rect[2] = 0
		}
	}
	return op
}

func genProc(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	for n := 0; n < 6; n++ {
		run := &Run{Tag: fmt.Sprint("r", n), Sched: genSched(r), Files: map[string]*FSpec{}}
		var shared []PSpec
		for i := 0; i < 1+r.N(3); i++ {
			p := genPSpec(r)
			p.Share = i + 1
			shared = append(shared, *p)
		}
		np := 0
		clients, reps := 1+r.N(4), 0
		if n == 4 && batch%60 == 20 { // very many pictures in one process
			run.Tag, run.Sched = "marathon", seqSched(r)
			run.Sched.Max = 6e9
			clients, reps = 1, 100+r.N(100)
		}
		for c := 0; c < clients; c++ {
			var ops []*Op
			for k := 0; k < reps || k < 1+r.N(5); k++ {
				switch x := r.N(10); {
				case x < 6:
					ops = append(ops, genProcOp(r, shared[r.N(len(shared))]))
				case x < 8:
					ops = append(ops, genProcOp(r, *genPSpec(r)))
				default:
					np++
					f := fmt.Sprintf("in%d", np)
					fs, _ := genPicFile(r, true)
					run.Files[f] = fs
					op := &Op{K: "imgread", S: f}
					if r.P(20) {
						op.Flt = append(op.Flt, fault("read", f, 0, int64(r.N(1+len(fs.Bytes()))), "EIO", r.N(2)))
					}
					ops = append(ops, op, genProcOp(r, PSpec{Last: true}))
				}
				for r.P(35) {
					ops = append(ops, genProcOp(r, PSpec{Last: true}))
				}
				if r.P(15) {
					ops = append(ops, &Op{K: "imgproc", S: "scribble", P: &PSpec{Last: true}})
				} else if r.P(25) {
					np++
					f := fmt.Sprintf("out%d.png", np)
					op := &Op{K: "imgsave", S: f, P: &PSpec{Last: true}}
					if r.P(20) {
						op.Flt = append(op.Flt, fault("write", f, 0, int64(r.N(300)), "ENOSPC", r.N(2)))
					}
					ops = append(ops, op)
				}
			}
			run.Clients = append(run.Clients, ops)
		}
		runs = append(runs, run)
	}
	return runs
}

func checkProc(h *Hist, st *State) []Viol {
	if f := h.Res.Failure; f != nil && f.Kind != "crash" {
		return []Viol{viol("result", "run %s ends in %s", h.Run.Tag, h.failure())}
	}
	var vs []Viol
	if h.Races > 0 {
		vs = append(vs, viol("race", "the race detector reports %d unordered accesses in run %s", h.Races, h.Run.Tag))
	}
	mine := map[int]*Res{} // the result each client may scribble on
	spoilt := map[*Res]bool{}
	for _, r := range h.Ops {
		if r.Op.K == "imgproc" && r.Op.S == "scribble" {
			if l := mine[r.Client]; l != nil {
				spoilt[l] = true
			}
			continue
		}
		if r.Kit != nil && r.Kit.Out != nil && r.Op.K == "imgproc" {
			mine[r.Client] = r
		} else if r.Panic == "" && !r.Skip && (r.Op.K == "imgread" || r.Op.K == "imgproc") {
			mine[r.Client] = nil
		}
	}
	for _, r := range h.Ops {
		if !r.Done {
			continue
		}
		what := fmt.Sprintf("%s %s, client %d op %d", r.Op.K, r.Op.S, r.Client, r.Idx)
		if r.Op.K == "imgproc" && r.Op.P.Scaler == "panic" && r.Op.S == "scale" {
			if r.Panic == "" && !r.Skip {
				vs = append(vs, viol("panic", "the panic of the caller's scaler is swallowed: %s", what))
			}
			continue
		}
		if r.Panic != "" {
			vs = append(vs, viol("panic", "panic %q: %s", r.Panic, what))
			continue
		}
		if r.Skip || r.Kit == nil {
			continue
		}
		k := r.Kit
		if r.Op.K == "imgsave" {
			if k.Sum != k.SumEnd {
				vs = append(vs, viol("input", "the picture which is saved was changed: %s", what))
			}
			if r.Failed {
				st.Count["failed saves"]++
				if r.RefOpen+r.RefWrite+r.RefClose == 0 && !k.Out.Bounds().Empty() {
					vs = append(vs, viol("spurious", "failure (%s) although nothing was refused: %s", r.Err, what))
				}
				continue
			}
			st.Count["results saved"]++
			if got, err := png.Decode(bytes.NewReader(r.File)); err != nil {
				vs = append(vs, viol("picture", "%v: %s", err, what))
			} else if s := imgSum(got); !spoiltPic(spoilt, k.Out) && k.Sum == imgSum(k.Out) {
				var buf bytes.Buffer
				if png.Encode(&buf, k.Out) == nil {
					if want, err := png.Decode(&buf); err == nil && imgSum(want) != s {
						vs = append(vs, viol("picture", "the saved picture is another: %s", what))
					}
				}
			}
			continue
		}
		if r.Op.K != "imgproc" {
			continue
		}
		st.Count["pictures processed by "+r.Op.S]++
		for _, w := range k.Want {
			vs = append(vs, viol(w[0], "%s: %s", w[1], what))
		}
		if k.Sum != k.SumEnd {
			vs = append(vs, viol("input", "the source picture was changed: %s", what))
		}
		if k.Out != nil && !spoilt[r] && imgSum(k.Out) != k.OutSum {
			vs = append(vs, viol("later", "the picture which was delivered changed later: %s", what))
		}
	}
	for i := 1; i < 10; i++ {
		m := h.Pics[i]
		if m == nil {
			continue
		}
		for _, r := range h.Ops {
			if r.Op.P != nil && r.Op.P.Share == i {
				if imgSum(bare(m)) != imgSum(r.Op.P.plain()) {
					vs = append(vs, viol("input", "the shared picture %d was changed", i))
				}
				break
			}
		}
	}
	return vs
}

func spoiltPic(spoilt map[*Res]bool, m image.Image) bool {
	for r := range spoilt {
		if r.Kit.Out == m {
			return true
		}
	}
	return false
}
