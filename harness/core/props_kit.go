package core

import (
	"bytes"
	"fmt"
	"image"
	_ "image/jpeg"
	"image/png"
	"path"
	"sort"
	"strings"

	"github.com/yeqown/go-qrcode/writer/standard/imgkit"

	"verifsim/simos"
)

// KitRes is what an operation of the picture helpers came to.
type KitRes struct {
	Img    image.Image // what Read returned
	Sum    uint64      // of the picture that was handed over
	SumEnd uint64      // and afterwards
	Was    []byte      // content of the file before
	Had    bool
	Out    image.Image // what Gray, Binaryzation or Scale returned
	OutSum uint64      // of that
	Want   [][2]string // why it is wrong, seen when it was delivered: class and text
}

func (e *env) imgkit(r *Res) {
	op := r.Op
	w := e.h.W
	w.AddFaults(clone(op.Flt))
	k := &KitRes{}
	if b, ok := w.GetFile(op.S); ok {
		k.Was, k.Had = append([]byte(nil), b...), true
	}
	if op.K == "imgread" {
		e.pic = nil
	}
	o0, w0, c0 := w.RefusedOn(op.S, "open", "create"), w.RefusedOn(op.S, "write", "sync", "truncate", "read"), w.RefusedOn(op.S, "close")
	r.Kit = k
	defer func() {
		r.RefOpen = w.RefusedOn(op.S, "open", "create") - o0
		r.RefWrite = w.RefusedOn(op.S, "write", "sync", "truncate", "read") - w0
		r.RefClose = w.RefusedOn(op.S, "close") - c0
		if b, ok := w.GetFile(op.S); ok {
			r.File, r.HasFile = append([]byte(nil), b...), true
		}
	}()
	if op.K == "imgread" {
		m, err := imgkit.Read(op.S)
		if err != nil {
			r.Failed, r.Err = true, err.Error()
			return
		}
		k.Img = m
		e.pic = m
		return
	}
	var m image.Image
	if op.P != nil && op.P.Last {
		if m = e.pic; m == nil {
			r.Skip = true
			return
		}
		k.Out = m
	} else {
		m = MakeImage(op.F.Img)
	}
	k.Sum = imgSum(m)
	if err := imgkit.Save(m, op.S); err != nil {
		r.Failed, r.Err = true, err.Error()
	}
	k.SumEnd = imgSum(m)
}

func kitFormat(p string) string {
	switch path.Ext(p) {
	case ".png":
		return "png"
	case ".jpg", ".jpeg":
		return "jpeg"
	}
	return ""
}

// samePicture compares two pictures: their sizes and every pixel.
func samePicture(a, b image.Image) string {
	x, y := a.Bounds(), b.Bounds()
	if x.Dx() != y.Dx() || x.Dy() != y.Dy() {
		return fmt.Sprintf("it is %dx%d, not %dx%d", x.Dx(), x.Dy(), y.Dx(), y.Dy())
	}
	for j := 0; j < x.Dy(); j++ {
		for i := 0; i < x.Dx(); i++ {
			r1, g1, b1, a1 := a.At(x.Min.X+i, x.Min.Y+j).RGBA()
			r2, g2, b2, a2 := b.At(y.Min.X+i, y.Min.Y+j).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 || a1 != a2 {
				return fmt.Sprintf("pixel %d,%d is %v, not %v", i, j, a.At(x.Min.X+i, x.Min.Y+j), b.At(y.Min.X+i, y.Min.Y+j))
			}
		}
	}
	return ""
}

// nearPicture compares a picture with one which lost detail in JPEG.
func nearPicture(a, b image.Image, limit int) string {
	x, y := a.Bounds(), b.Bounds()
	if x.Dx() != y.Dx() || x.Dy() != y.Dy() {
		return fmt.Sprintf("it is %dx%d, not %dx%d", x.Dx(), x.Dy(), y.Dx(), y.Dy())
	}
	sum := 0
	for j := 0; j < x.Dy(); j++ {
		for i := 0; i < x.Dx(); i++ {
			r1, g1, b1, _ := a.At(x.Min.X+i, x.Min.Y+j).RGBA()
			r2, g2, b2, _ := b.At(y.Min.X+i, y.Min.Y+j).RGBA()
			sum += abs(int(r1>>8)-int(r2>>8)) + abs(int(g1>>8)-int(g2>>8)) + abs(int(b1>>8)-int(b2>>8))
		}
	}
	if d := sum / (3 * max(1, x.Dx()*x.Dy())); d > limit {
		return fmt.Sprintf("its pixels are off by %d on average", d)
	}
	return ""
}

// kitBytes is what a picture looks like in a file.
func kitBytes(s *ImgSpec, format string) []byte {
	return (&FSpec{Img: s, Fmt: format}).Bytes()
}

func init() {
	register(&Prop{
		ID:      "C20",
		Batches: tiers(2400, 40000),
		Gen:     genKit,
		Check:   checkKit,
		Rule:    "a case is one simulated run in which clients save pictures to files with the picture helpers and read files back, over old files, damaged files, directories and bad paths, through open, read, write and close errors, full disks and kills, then again after the faults; non-trivial if a fault fired, a file was damaged or the run was preempted",
		Real:    []string{"writer/standard/imgkit", "image/png and image/jpeg", "package qrcode and writers beside it"},
		Stub:    []string{"the file system (simulated world with faults and process kill)", "goroutine scheduling, sync and channels (simulator)"},
		NonTrivial: func(h *Hist) bool {
			return len(h.W.Fired) > 0 || h.Run.X["damaged"] > 0 || h.Res.Preempts > 0
		},
	})
}

func genKitImg(r *RNG) *ImgSpec {
	m := &ImgSpec{Kind: Pick(r, "noise", "gray", "solid", "alpha", "paletted", "check", "white", "gray16"), W: 1 + r.N(60), H: 1 + r.N(60), Seed: r.U() >> 40}
	if r.P(20) {
		m.X, m.Y = r.N(41)-20, r.N(41)-20
	}
	if r.P(5) {
		m.W, m.H = 300+r.N(200), 200+r.N(200)
	}
	bigPic(r, m, 250)
	return m
}

// bigPic makes one in n pictures a large, long or tall one.
func bigPic(r *RNG, m *ImgSpec, n int) {
	if r.N(n) > 0 {
		return
	}
	switch r.N(4) {
	case 0:
		m.W, m.H = Pick(r, 1100, 2049, 4097, 5000), 1+r.N(4)
	case 1:
		m.W, m.H = 1+r.N(4), Pick(r, 1100, 2049, 4097, 5000)
	default: // more than a megabyte
		m.Kind, m.W, m.H = "noise", 600+r.N(300), 620+r.N(200)
	}
}

func genKit(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	for n := 0; n < 6; n++ {
		run := &Run{Tag: fmt.Sprint("r", n), Sched: genSched(r), X: map[string]int{}, Dirs: []string{"dir.png", "sub", "ro", "locked"},
			Files: map[string]*FSpec{"keep.png": {Raw: []byte("keep me")}, "sub/keep.bin": {Fill: 300}, "locked/a.png": {Fill: 70}, "mine.png": {Fill: 90}, "ro/old.png": {Fill: 80}},
			Modes: map[string]int{"mine.png": 0444, "ro": 0555, "locked": 0600}}
		run.Group = r.P(40)
		if r.P(15) {
			run.Sched.KillAt = uint64(500 + r.N(40000))
			run.Group = true
		}
		var all []string
		np := 0
		clients, reps := 1+r.N(3), 0
		if n == 2 && batch%60 == 20 { // very many files of one process
			run.Tag, run.Sched = "marathon", seqSched(r)
			run.Sched.Max = 6e9
			run.Group = false
			clients, reps = 1, 100+r.N(100)
		}
		for c := 0; c < clients; c++ {
			var ops []*Op
			for k := 0; k < reps || k < 1+r.N(4); k++ {
				np++
				p := fmt.Sprintf("%s%d%s", Pick(r, "", "sub/", "./", "sub/../", "a.png."), np, Pick(r, ".png", ".png", ".jpg", ".jpeg", "-日本.png"))
				if r.P(12) {
					p = oddPath(r, run, np)
				}
				save := r.P(65)
				bad := false
				if save && r.P(14) {
					p = fmt.Sprintf("%d%s", np, Pick(r, ".txt", "", ".gif", ".bmp", ".png.bak", "png", ".svg", "."))
				}
				if r.P(10) {
					bad = true
					p = Pick(r, "missing/a.png", "dir.png", "keep.png/a.jpg", "sub/no/b.png", "new/", "locked/a.png", "locked/new.jpg", "ro/new.png",
						"mine.png", "", "sub/"+strings.Repeat("n", 300)+".png", "nul\x00.png")
					if !save && (p == "mine.png") {
						bad = false
					}
				}
				if !bad && (r.P(45) || !save && r.P(80)) { // a file is there
					f, dam := genPicFile(r, false)
					if dam {
						run.X["damaged"]++
					}
					if save && r.P(50) {
						f = &FSpec{Fill: Pick(r, 1, 50, 5000, 100000)}
					}
					if p != "mine.png" {
						run.Files[p] = f
					}
				}
				op := &Op{K: "imgread", S: p}
				size := 0
				if f := run.Files[p]; f != nil {
					size = len(f.Bytes())
				}
				if save {
					op.K = "imgsave"
					op.F = &FSpec{Img: genKitImg(r)}
					if kitFormat(p) == "jpeg" && r.P(60) {
						op.F.Img.Kind = Pick(r, "solid", "check", "white")
					}
					size = len(kitBytes(op.F.Img, Pick2(kitFormat(p) == "jpeg", "jpeg", "png")))
				}
				if !bad && r.P(45) {
					var f *simos.Fault
					switch x := r.N(6); {
					case x == 0:
						f = fault("open", p, 0, 0, Pick(r, "EACCES", "EMFILE", "EROFS", "ENOSPC", "EIO"), r.N(2))
					case !save:
						f = fault("read", p, 0, int64(r.N(size+1)), "EIO", r.N(2))
					case x == 1:
						f = fault("close", p, 1, 0, Pick(r, "EIO", "ENOSPC", "EDQUOT"), 1)
					case x == 2:
						f = fault("write", p, 1+r.N(3), 0, Pick(r, "ENOSPC", "EIO"), r.N(2))
					default:
						f = fault("write", p, 0, int64(r.N(size)), Pick(r, "ENOSPC", "EIO", "EDQUOT"), r.N(2))
					}
					if run.Group && run.Sched.KillAt == 0 && r.P(40) {
						f.Kill = true
					}
					op.Flt = []*simos.Fault{f}
				}
				ops = append(ops, op)
				if r.P(60) {
					ops = append(ops, &Op{K: "imgread", S: p})
				}
				if r.P(20) { // over itself
					ops = append(ops, &Op{K: "imgsave", S: p, F: &FSpec{Img: genKitImg(r)}}, &Op{K: "imgread", S: p})
				}
				if !bad && kitFormat(p) != "" {
					all = append(all, p)
				}
			}
			run.Clients = append(run.Clients, ops)
		}
		if r.P(15) { // somebody else saves a symbol meanwhile
			ops := newRead(0, genGood(r, 1))
			run.Clients = append(run.Clients, append(ops, saveOp(0, 0, &WSpec{Kind: "comp", Block: 1})))
		}
		run.Final = append(run.Final, &Op{K: "faults"})
		for _, p := range all {
			if r.P(50) {
				run.Final = append(run.Final, &Op{K: "imgsave", S: p, F: &FSpec{Img: genKitImg(r)}})
			}
			run.Final = append(run.Final, &Op{K: "imgread", S: p})
		}
		runs = append(runs, run)
	}
	return runs
}

// Pick2 is the conditional expression.
func Pick2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func checkKit(h *Hist, st *State) []Viol {
	var vs []Viol
	if f := h.Res.Failure; f != nil && f.Kind != "crash" {
		return []Viol{viol("result", "run %s ends in %s", h.Run.Tag, h.failure())}
	}
	used := map[string]bool{}
	lastSave := map[string]*Res{} // the last operation which may have changed a file
	for _, r := range h.Ops {
		if r.Kit == nil {
			continue
		}
		p := r.Op.S
		a := h.W.Abs(p)
		if r.Op.K == "imgsave" && kitFormat(p) != "" && !h.badPath(p) && p != "" {
			used[a] = true
			lastSave[a] = r
		}
		if !r.Done {
			continue
		}
		what := fmt.Sprintf("%s %q, client %d op %d", r.Op.K, p, r.Client, r.Idx)
		if r.Panic != "" {
			vs = append(vs, viol("panic", "panic %q: %s", r.Panic, what))
			continue
		}
		if r.Op.K == "imgread" {
			vs = append(vs, checkKitRead(h, st, r, what)...)
			continue
		}
		if r.Kit.Sum != r.Kit.SumEnd {
			vs = append(vs, viol("input", "the picture which is saved was changed: %s", what))
		}
		switch {
		case kitFormat(p) == "":
			st.Count["saves in unknown formats"]++
			if !r.Failed {
				vs = append(vs, viol("silent", "success is reported for a format that is not supported: %s", what))
			}
			if r.HasFile != r.Kit.Had || !bytes.Equal(r.File, r.Kit.Was) {
				vs = append(vs, viol("touched", "the format is not supported, yet the file changed: %s", what))
			}
		case p == "" || h.badPath(p) || r.RefOpen > 0 || r.RefWrite > 0 || r.RefClose > 0:
			st.Count["refused saves"]++
			if !r.Failed {
				vs = append(vs, viol("silent", "success is reported although the file could not be made (%d opens, %d writes, %d closes refused): %s", r.RefOpen, r.RefWrite, r.RefClose, what))
			}
		case r.Failed:
			vs = append(vs, viol("spurious", "failure (%s) although nothing was refused: %s", r.Err, what))
		default:
			st.Count["successful saves"]++
			if m := kitShows(r.Op.F.Img, kitFormat(p), r.File); m != "" {
				vs = append(vs, viol("picture", "%s: %s", m, what))
			}
		}
	}
	for _, r := range h.saves() {
		if r.Done && (r.Panic != "" || r.Failed) {
			vs = append(vs, viol("beside", "fails (%s%s): %s", r.Panic, r.Err, r.where()))
		}
	}
	after := h.W.Snapshot()
	var names []string
	for p := range after {
		names = append(names, p)
	}
	for p := range h.Before {
		if _, ok := after[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		if used[p] {
			continue
		}
		b, was := h.Before[p]
		a, is := after[p]
		if was != is || a != b {
			vs = append(vs, viol("touched", "%s changed (%v %d bytes, then %v %d bytes); nothing was saved there", p, was, len(b), is, len(a)))
		}
	}
	var saved []string
	for p := range lastSave {
		saved = append(saved, p)
	}
	sort.Strings(saved)
	for _, p := range saved {
		if r := lastSave[p]; r.Done && r.Panic == "" && !r.Failed && after[p] != string(r.File) {
			vs = append(vs, viol("touched", "%s changed after it was saved", p))
		}
	}
	if !h.Run.Group {
		if o := h.W.OpenHandles(); len(o) > 0 {
			vs = append(vs, viol("leak", "still open at the end: %v", o))
		}
	}
	return vs
}

// kitShows judges the bytes of a saved picture.
func kitShows(s *ImgSpec, format string, data []byte) string {
	if format == "png" {
		m, err := png.Decode(bytes.NewReader(data))
		if err != nil {
			return fmt.Sprintf("the file (%d bytes) is no PNG picture: %v", len(data), err)
		}
		want, err := png.Decode(bytes.NewReader(kitBytes(s, "png")))
		if err != nil {
			panic(err)
		}
		if d := samePicture(m, want); d != "" {
			return "the file does not hold the picture: " + d
		}
		return trailing(data, []byte("IEND\xaeB`\x82"))
	}
	m, f, err := image.Decode(bytes.NewReader(data))
	if err != nil || f != "jpeg" {
		return fmt.Sprintf("the file (%d bytes, %s) is no JPEG picture: %v", len(data), f, err)
	}
	want, _, err := image.Decode(bytes.NewReader(kitBytes(s, "jpeg")))
	if err != nil {
		panic(err)
	}
	limit := 48
	switch s.Kind {
	case "solid", "white", "check":
		limit = 16
	}
	if d := nearPicture(m, want, limit); d != "" {
		return "the file does not hold the picture: " + d
	}
	return trailing(data, []byte("\xff\xd9"))
}

// trailing finds the rest of an older, longer file.
func trailing(data, end []byte) string {
	if !bytes.HasSuffix(data, end) {
		return "the file does not end where the picture does"
	}
	return ""
}

func checkKitRead(h *Hist, st *State, r *Res, what string) []Viol {
	if r.RefOpen > 0 || !r.Kit.Had || !h.readable(r) {
		st.Count["unreadable files"]++
		if !r.Failed {
			return []Viol{viol("silent", "a picture is returned although the file cannot be opened: %s", what)}
		}
		return nil
	}
	want, _, err := image.Decode(bytes.NewReader(r.Kit.Was))
	if r.RefWrite > 0 && r.Failed { // a read failed
		st.Count["failed reads"]++
		return nil
	}
	if err != nil {
		st.Count["damaged files"]++
		if !r.Failed {
			return []Viol{viol("silent", "a picture is returned although the file does not hold one (%v): %s", err, what)}
		}
		return nil
	}
	if r.Failed {
		return []Viol{viol("spurious", "failure (%s) although the file holds a picture: %s", r.Err, what)}
	}
	st.Count["pictures read"]++
	if r.Kit.Img == nil {
		return []Viol{viol("picture", "neither a picture nor an error: %s", what)}
	}
	if d := samePicture(r.Kit.Img, want); d != "" {
		return []Viol{viol("picture", "%s: %s", d, what)}
	}
	return nil
}

// readable tells whether the file of an operation may be opened for reading.
func (h *Hist) readable(r *Res) bool {
	a := h.W.Abs(r.Op.S)
	for p := range h.Before {
		if p == a {
			return h.World0.Readable(r.Op.S)
		}
	}
	return true // made during the run
}
