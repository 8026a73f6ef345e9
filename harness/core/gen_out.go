package core

import (
	"fmt"

	"verifharness/refqr"
)

// genGood draws a request which must work, of a bounded version.
func genGood(r *RNG, maxVer int) *Req {
	for i := 0; i < 200; i++ {
		q := genReq(r, maxVer)
		if w := WantOf(q); w.MustWork && w.Ver <= maxVer && w.MinVer <= maxVer {
			return q
		}
	}
	return &Req{Text: []byte("A"), Kind: "s"}
}

func genColor(r *RNG, lo, hi int) []uint8 {
	c := []uint8{uint8(r.R(lo, hi)), uint8(r.R(lo, hi)), uint8(r.R(lo, hi))}
	if r.P(20) { // one that three digits can name
		for i, v := range c {
			if v -= v % 17; int(v) >= lo {
				c[i] = v
			}
		}
	}
	return c
}

// colorKinds are colour models of the caller's colours.
var colorKinds = []string{"", "nrgba64", "rgba64", "cmyk", "ycbcr", "own"}

func hexOf(r *RNG, c []uint8) string {
	if c[0]%17+c[1]%17+c[2]%17 == 0 && r.P(70) {
		return fmt.Sprintf(Pick(r, "#%x%x%x", "#%X%X%X"), c[0]/17, c[1]/17, c[2]/17)
	}
	if r.P(50) {
		return fmt.Sprintf("#%02x%02x%02x", c[0], c[1], c[2])
	}
	return fmt.Sprintf("#%02X%02X%02X", c[0], c[1], c[2])
}

var blockShapes = []string{"liquid", "chain", "hstripe", "vstripe", "hchain", "vchain", "circle", "square"}

// genImgOpts draws a configuration of the standard writer whose output can be
// judged: the picture must show the symbol. maxW bounds the block width.
func genImgOpts(r *RNG, maxW int) []IOpt {
	var o []IOpt
	jpeg := r.P(30)
	if jpeg {
		if r.P(50) {
			o = append(o, IOpt{K: "jpeg"})
		}
	} else if r.P(12) {
		o = append(o, IOpt{K: "enc"})
	} else {
		o = append(o, IOpt{K: "png"})
	}
	shape := ""
	if r.P(45) {
		shape = Pick(r, "circle", "shape", "shapes", "shapes")
	}
	half := shape != "shape" && (!jpeg && r.P(18) || jpeg && shape == "" && r.P(4))
	lo := 1
	switch {
	case jpeg && half:
		lo = 36
	case jpeg:
		lo = 10
	case half && shape == "circle":
		lo = 12
	case half && shape == "shapes":
		lo = 18
	case half:
		lo = 1
	case shape == "shapes":
		lo = 6
	case shape == "circle":
		lo = 5
	}
	maxW = max(maxW, lo)
	bw := 20
	if maxW >= 20 && r.P(15) {
		if r.P(30) {
			o = append(o, IOpt{K: "width", I: []int{0}}) // the default
		}
	} else {
		bw = lo + r.N(maxW-lo+1)
		if r.P(40) {
			bw = min(maxW, lo+r.N(6))
		}
		o = append(o, IOpt{K: "width", I: []int{bw}})
	}
	switch shape {
	case "circle", "shape":
		o = append(o, IOpt{K: shape})
	case "shapes":
		o = append(o, IOpt{K: "shapes", S: Pick(r, "R", "S") + "+" + blockShapes[r.N(len(blockShapes))], F: []float64{Pick(r, 0.6, 0.7, 0.8, 0.85, 0.95, 1, 3)}})
	}
	// colours
	fg, bg := []uint8{0, 0, 0}, []uint8{255, 255, 255}
	if jpeg {
		if r.P(40) {
			fg = genColor(r, 0, 70)
		}
		if r.P(40) {
			bg = genColor(r, 185, 255)
		}
	} else {
		if r.P(50) {
			fg = genColor(r, 0, 255)
			if r.P(30) {
				fg = genColor(r, 0, 90)
			}
		}
		if r.P(50) {
			bg = genColor(r, 0, 255)
		}
		if fg[0] == bg[0] && fg[1] == bg[1] && fg[2] == bg[2] {
			fg, bg = []uint8{0, 0, 0}, []uint8{255, 255, 255}
		}
	}
	grad := r.P(20) && (!half || r.P(50))
	if grad {
		if !jpeg && r.P(50) {
			bg = genColor(r, 200, 255)
		} else if luma(rgba(bg)) < 185 {
			bg = []uint8{255, 255, 255}
		}
		if fg[0] == bg[0] && fg[1] == bg[1] && fg[2] == bg[2] {
			fg = []uint8{1, 2, 3}
		}
	}
	if fg[0]|fg[1]|fg[2] != 0 || r.P(20) {
		switch {
		case !jpeg && !grad && !half && shape == "" && r.P(5): // translucent
			a := 40 + r.N(215)
			o = append(o, IOpt{K: "fg", C: []uint8{uint8(r.N(a + 1)), uint8(r.N(a + 1)), uint8(r.N(a + 1)), uint8(a)}})
		case r.P(30):
			o = append(o, IOpt{K: "fghex", S: hexOf(r, fg)})
		case r.P(30):
			o = append(o, IOpt{K: "fgn", C: fg, S: Pick(r, colorKinds...)})
		default:
			o = append(o, IOpt{K: "fg", C: fg})
		}
	}
	if bg[0]&bg[1]&bg[2] != 255 || r.P(20) {
		if !jpeg && !grad && r.P(5) {
			a := Pick(r, 0, 0, 1, 128, 254, r.N(256)) // nothing at all, or translucent
			o = append(o, IOpt{K: "bg", C: []uint8{uint8(r.N(a + 1)), uint8(r.N(a + 1)), uint8(r.N(a + 1)), uint8(a)}})
		} else if r.P(30) {
			o = append(o, IOpt{K: "bghex", S: hexOf(r, bg)})
		} else if r.P(30) {
			o = append(o, IOpt{K: "bgn", C: bg, S: Pick(r, colorKinds...)})
		} else {
			o = append(o, IOpt{K: "bg", C: bg})
		}
	}
	if grad {
		n := 1 + r.N(4)
		if r.P(30) {
			n = 4 + r.N(6)
		}
		gap := min(0.3, 1.2/float64(n))
		g := IOpt{K: "grad", I: []int{Pick(r, 0, 45, 90, 135, 180, 270, r.N(360))}}
		t := r.F() * 0.3
		for i := 0; i < n; i++ {
			g.F = append(g.F, t)
			t += 0.02 + r.F()*gap
			g.C = append(g.C, genColor(r, 0, 80)...)
		}
		if r.P(50) { // one list for all
			g.I = append(g.I, 1+r.N(1<<20))
		}
		if n > 1 && r.P(40) { // NewGradient sorts them
			g.F[0], g.F[n-1] = g.F[n-1], g.F[0]
		}
		o = append(o, g)
	}
	if !jpeg && r.P(20) {
		o = append(o, IOpt{K: "bgt"})
	} else if jpeg && r.P(15) {
		o = append(o, IOpt{K: "bgt"})
	}
	b := [4]int{40, 40, 40, 40}
	switch r.N(6) {
	case 0:
		o = append(o, IOpt{K: "border", I: []int{}})
	case 1:
		v := Pick(r, 0, 1, 4, 17, 60)
		o = append(o, IOpt{K: "border", I: []int{v}})
		b = [4]int{v, v, v, v}
	case 2:
		v, w := r.N(50), r.N(50)
		o = append(o, IOpt{K: "border", I: []int{v, w}})
		b = [4]int{v, w, v, w}
	case 3:
		for i := range b {
			b[i] = r.N(64)
		}
		o = append(o, IOpt{K: "border", I: b[:]})
	}
	if half {
		k := Pick(r, "noise", "gray", "check", "white", "black", "paletted", "gray16", "quarters", "quarters", "quarters")
		m := &ImgSpec{Kind: k, W: 1 + r.N(90), H: 1 + r.N(90), Seed: r.U() >> 40}
		if k == "quarters" {
			m.W, m.H = 20+r.N(200), 20+r.N(200)
			if r.P(30) {
				m.X, m.Y = r.N(40)-20, r.N(40)-20
			}
		}
		o = append(o, IOpt{K: "halftoneimg", M: m})
	}
	if r.P(30) {
		mult := 5
		if r.P(40) {
			mult = Pick(r, 1, 2, 3, 4, 6, 8)
			o = append(o, IOpt{K: "mult", I: []int{mult}})
		}
		W, H := 21*bw+b[1]+b[3], 21*bw+b[0]+b[2]
		m := &ImgSpec{Kind: Pick(r, "noise", "gray", "solid", "alpha", "paletted", "check"), W: max(1, W/mult), H: max(1, H/mult), Seed: r.U() >> 40}
		switch r.N(5) {
		case 0:
			m.W = 1 + r.N(m.W)
		case 1:
			m.H = 1 + r.N(m.H)
		case 2:
			m.W, m.H = 1+r.N(m.W), 1+r.N(m.H)
		case 3:
			m.W++ // too large, if the symbol is of version 1
		}
		if r.P(30) {
			m.X, m.Y = r.N(41)-20, r.N(41)-20
		}
		o = append(o, IOpt{K: "logo", M: m})
		if r.P(55) {
			o = append(o, IOpt{K: "safe"})
		}
	}
	if r.P(30) {
		p := r.Perm(len(o))
		n := make([]IOpt, len(o))
		for i, j := range p {
			n[i] = o[j]
		}
		o = n
	}
	return o
}

// genWr draws a writer for a byte sink.
func genWr(r *RNG, maxW int) *WSpec {
	switch x := r.N(100); {
	case x < 62:
		return &WSpec{Kind: "std", Opts: genImgOpts(r, maxW)}
	case x < 85:
		return &WSpec{Kind: "comp", Pad: r.N(30) * r.N(2), Block: 1 + r.N(12)}
	default:
		return &WSpec{Kind: "file", Path: fmt.Sprintf("text%d.txt", r.N(1000))}
	}
}

// simpleWr is a cheap writer.
func simpleWr(r *RNG) *WSpec {
	switch r.N(5) {
	case 0:
		return &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{1 + r.N(4)}}, {K: "png"}}}
	case 1:
		return &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{10}}, {K: "border", I: []int{r.N(9)}}}}
	case 2:
		return &WSpec{Kind: "file", Path: fmt.Sprintf("t%d.txt", r.N(1000))}
	case 3:
		return &WSpec{Kind: "std", Opts: genImgOpts(r, 12)}
	}
	return &WSpec{Kind: "comp", Pad: r.N(5), Block: 1 + r.N(4)}
}

// lightWr is a writer cheap enough for hundreds of saves.
func lightWr(r *RNG) *WSpec {
	switch r.N(4) {
	case 0:
		return &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{1 + r.N(3)}}, {K: "png"}, {K: "border", I: []int{r.N(4)}}}}
	case 1:
		return &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{3 + r.N(3)}}, {K: "border", I: []int{r.N(4)}}, {K: "png"}, {K: "grad", I: []int{r.N(360)}, F: []float64{0.1, 0.9}, C: append(genColor(r, 0, 80), genColor(r, 0, 80)...)}}}
	case 2:
		return &WSpec{Kind: "comp", Pad: r.N(5), Block: 1 + r.N(3)}
	}
	return &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{2}}, {K: "png"}, {K: "border", I: []int{r.N(9)}}, {K: "circle"}}}
}

// onPath turns a writer into one which saves to a path.
func onPath(w *WSpec, path string) *WSpec {
	c := *w
	c.Path = path
	switch c.Kind {
	case "std":
		c.Kind = "stdfile"
	case "comp":
		c.Kind = "compfile"
	}
	return &c
}

var sinkErrs = []string{"disk full", "broken pipe", "i/o error", "connection reset", "EOF", "short write"}

// genSinkFault draws a way for a sink to refuse bytes.
// callBack lets the destination of a writer use the library itself, now and
// then, or wait for another client; options tells that the writer may be given
// options for it.
func callBack(r *RNG, w *WSpec, reqs []*Req, wrs []*WSpec, options, meet bool) *WSpec {
	return callBackAt(r, w, reqs, wrs, options, meet, 500)
}

// callBackAt uses slots from a number on.
func callBackAt(r *RNG, w *WSpec, reqs []*Req, wrs []*WSpec, options, meet bool, slot int) *WSpec {
	var at []string
	switch {
	case w.Path != "" || w.Seek || w.Share > 0 && options:
	case w.Kind == "rec":
		at = []string{"", "iter", "close"}
	case w.Kind == "comp":
		at = []string{"", "close"}
	case w.Kind == "std":
		at = []string{"", "", "close"}
		if options {
			at = append(at, "enc", "draw")
		}
	}
	if len(at) == 0 || !r.P(12) {
		return w
	}
	c := *w
	if meet && r.P(50) {
		c.Sink.Meet = true
		if r.P(50) {
			return &c
		}
	}
	c.Sink.InAt = Pick(r, at...)
	switch c.Sink.InAt {
	case "enc":
		c.Opts = append(append([]IOpt(nil), c.Opts...), IOpt{K: "enc"})
	case "draw":
		c.Opts = append(append([]IOpt(nil), c.Opts...), IOpt{K: "shape"})
	}
	for k := 0; k < 1+r.N(2); k++ {
		c.Sink.In = append(c.Sink.In, newRead(slot+k, reqs[r.N(len(reqs))])...)
		if v := wrs[r.N(len(wrs))]; v.Path == "" && v.Kind != "term" && r.P(60) {
			n := *v
			n.Sink = SinkSpec{Yield: r.N(2)}
			in := &n
			for k := 0; k < 3 && in == &n; k++ { // and so on
				in = callBackAt(r, in, reqs, wrs, options, false, slot+10)
			}
			c.Sink.In = append(c.Sink.In, saveOp(slot+k, slot+k, in))
		}
	}
	return &c
}

func genSinkFault(r *RNG) SinkSpec {
	s := SinkSpec{Err: anySinkErr(r), Take: r.P(50), Once: r.P(30), Yield: r.N(2)}
	switch r.N(5) {
	case 0:
		s.FailNth = 1
	case 1:
		s.FailNth = 2 + r.N(4)
	case 2:
		s.Per = 1000
	default:
		s.Per = 1 + r.N(1000)
	}
	if r.P(15) {
		s.Full = true
	}
	return s
}

// genDiskFault draws a fault of the file a writer saves to.
func genDiskFault(r *RNG) DFault {
	switch r.N(6) {
	case 0:
		return DFault{Op: "open", Err: Pick(r, "EACCES", "EMFILE", "EROFS", "ENOSPC", "EIO", "ENAMETOOLONG")}
	case 1:
		return DFault{Op: "write", Nth: 1, Err: Pick(r, "ENOSPC", "EIO", "EDQUOT", "EPIPE")}
	case 2:
		return DFault{Op: "write", Per: 1000, Err: Pick(r, "ENOSPC", "EIO", "EDQUOT")}
	case 3:
		return DFault{Op: "close", Err: Pick(r, "EIO", "ENOSPC", "EDQUOT")}
	}
	return DFault{Op: "write", Per: 1 + r.N(1000), Err: Pick(r, "ENOSPC", "EIO", "EDQUOT"), Times: r.N(2)}
}

// symOf is the symbol an operation was about.
func (h *Hist) symOf(r *Res, st *State) [][]bool {
	n := h.reqOf(r)
	if n == nil {
		return nil
	}
	for _, p := range h.Ops {
		if p.Op.K == "read" && p.Done && p.Panic == "" && p.BM != "" && p.Op.Q == r.Op.Q && h.reqOf(p) == n {
			return Unpack(p.BM)
		}
	}
	if o := st.Outcome[n.Op.Req.Key()]; len(o) > 4 && o[:4] == "sym:" {
		return Unpack(o[4:])
	}
	return nil
}

// outKeyOf identifies what the output of a save may depend on.
func (h *Hist) outKeyOf(r *Res) string {
	n := h.reqOf(r)
	if n == nil || r.Spec == nil {
		return ""
	}
	return n.Op.Req.Key() + "|" + r.Spec.Key()
}

// made tells whether the request behind an operation came to a symbol.
func (h *Hist) made(r *Res) bool {
	n := h.reqOf(r)
	return n != nil && n.Done && n.Panic == "" && !n.Failed && !n.Nil
}

// saves lists the save operations which had a symbol to save.
func (h *Hist) saves() []*Res {
	var out []*Res
	for _, r := range h.Ops {
		if (r.Op.K == "save" || r.Op.K == "write") && h.made(r) && r.Spec != nil {
			out = append(out, r)
		}
	}
	return out
}

// checkBytes judges the bytes of a successful save: those of every other such
// save, and those of a picture of the symbol.
func checkBytes(h *Hist, st *State, r *Res, oracle bool) []Viol {
	data, ok := r.output(r.Spec)
	if !ok {
		return nil
	}
	var vs []Viol
	k := h.outKeyOf(r)
	if old, ok := st.Bytes[k]; ok {
		st.Count["outputs compared"]++
		if old != string(data) {
			vs = append(vs, viol("bytes", "the output differs from that of another save of the same symbol with the same writer options: %d and %d bytes, first difference at %d (other: %s): %s",
				len(data), len(old), diffAt(string(data), old), st.Where[k], r.where()))
		}
	} else {
		st.Bytes[k] = string(data)
		st.Where[k] = "run " + h.Run.Tag + " " + r.where()
	}
	if oracle {
		if bm := h.symOf(r, st); bm != nil {
			st.Count["outputs judged"]++
			if m := CheckOutput(r.Spec, bm, data); m != "" {
				vs = append(vs, viol("picture", "%s: %s", m, r.where()))
			}
		}
	}
	return vs
}

func diffAt(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// genLarge draws a symbol and writers whose outputs are large.
func genLarge(r *RNG) (*Req, []*WSpec) {
	q := genGood(r, 1)
	if v := WantOf(q); v.MustWork {
		q = &Req{Text: q.Text, Kind: q.Kind, Opts: append(append([]EOpt(nil), q.Opts...), EOpt{"ver", r.R(28, 40)})}
	}
	if w := WantOf(q); !w.MustWork || w.Ver < 28 {
		class := Pick(r, "num", "alnum", "bin")
		ref, api := modeOfClass(class)
		ec := r.N(4)
		q = &Req{Text: genText(r, class, refqr.Capacity(ref, r.R(28, 40), ec)-r.N(3)), Opts: []EOpt{{"mode", api}, {"ec", 1 + ec}}}
	}
	return q, []*WSpec{
		{Kind: "file", Path: "large.txt"},
		{Kind: "comp", Pad: r.N(9), Block: 1 + r.N(9)},
		{Kind: "std", Opts: []IOpt{{K: "png"}, {K: "width", I: []int{1 + r.N(5)}}, {K: "border", I: []int{r.N(9)}}, {K: "mult", I: []int{1 + r.N(2)}}, {K: "logo", M: &ImgSpec{Kind: "noise", W: 1 + r.N(80), H: 1 + r.N(80), Seed: r.U() >> 40}}}},
		{Kind: "std", Opts: []IOpt{{K: "width", I: []int{10}}, {K: "border", I: []int{r.N(9)}}}},
	}
}
