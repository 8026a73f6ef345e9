package core

import (
	"fmt"
	"image/color"
	"image/jpeg"
	"sort"
	"strings"

	"verifharness/refqr"
	"verifsim/simtermbox"
)

var stubEnv = []string{"the file system, environment and log (simulated world with faults)", "byte sinks", "goroutine scheduling, sync and channels (simulator)"}

// sameBytes compares the outputs of equal saves without an oracle.
func sameBytes(h *Hist, st *State) []Viol {
	var vs []Viol
	for _, r := range h.saves() {
		if r.Done && r.Panic == "" && !r.Failed {
			vs = append(vs, checkBytes(h, st, r, false)...)
		}
	}
	return vs
}

func init() {
	register(&Prop{
		ID:      "C05",
		Race:    true,
		Batches: tiers(180, 4000),
		Gen:     genConcurrent,
		Check: func(h *Hist, st *State) []Viol {
			var vs []Viol
			if h.Races > 0 {
				vs = append(vs, viol("race", "the race detector reports %d unordered accesses in run %s", h.Races, h.Run.Tag))
			}
			if h.Res.Failure != nil {
				vs = append(vs, viol("result", "run %s ends in %s", h.Run.Tag, h.failure()))
				return vs
			}
			vs = append(vs, sameOutcomes(h, st, "differs")...)
			for _, r := range h.saves() {
				switch {
				case !r.Done:
				case r.Panic != "":
					vs = append(vs, viol("result", "panic %q: %s", r.Panic, r.where()))
				case r.Failed && !faulty(r):
					vs = append(vs, viol("result", "fails (%s) although nothing refused its bytes: %s", r.Err, r.where()))
				case !r.Failed:
					vs = append(vs, checkBytes(h, st, r, false)...)
				}
			}
			for _, o := range h.Ops {
				if o.Touched != "" {
					vs = append(vs, viol("input", "%s", o.Touched))
				}
			}
			for _, t := range h.touchedStops() {
				vs = append(vs, viol("input", "%s", t))
			}
			if h.Run.Tag == "baseline" {
				st.Count["sequential baselines"]++
			}
			return vs
		},
		Rule: "a case is one simulated run in which 2-5 clients build symbols from a cold or warm start and save shared symbols with shared options, preempted between statements, under the race detector; results are compared with those of a sequential run of the same requests; non-trivial if the run was preempted or met a fault",
		Real: realOut4, Stub: stubEnv,
	})

	register(&Prop{
		ID:      "C11",
		Batches: tiers(900, 20000),
		Gen:     genPictures,
		Check:   checkPictures,
		Rule:    "a case is one simulated run in which clients save with logo and halftone files that are missing, unreadable, cut, flipped, of another format or fail in the middle of a read; each save is compared with one that is handed the picture (or none) directly; non-trivial if a fault fired or a file was damaged or the run was preempted",
		Real:    append([]string{"image/png and image/jpeg decoders"}, realOut4...), Stub: stubEnv,
		NonTrivial: func(h *Hist) bool { return len(h.W.Fired) > 0 || h.Run.X["damaged"] > 0 || h.Res.Preempts > 0 },
	})

	register(&Prop{
		ID:      "C12",
		Batches: tiers(2200, 60000),
		Gen:     genTerminal,
		Check:   checkTerminal,
		Rule:    "a case is one simulated run in which symbols are shown on a scripted terminal of any size which fails to open, fails to refresh, is resized and delivers other events before a key, or no key at all; non-trivial if the terminal delivered an event or failed",
		Real:    []string{"package qrcode", "writer/terminal", "go-runewidth"},
		Stub:    []string{"termbox (a model of its cell buffers, sizes, events and errors)", "goroutine scheduling, sync and channels (simulator)"},
	})

	register(&Prop{
		ID:      "C13",
		Batches: tiers(420, 12000),
		Gen:     genEverything,
		Check: func(h *Hist, st *State) []Viol {
			var vs []Viol
			if f := h.Res.Failure; f != nil {
				vs = append(vs, viol("stuck", "run %s: %s", h.Run.Tag, h.failure()))
				return vs
			}
			if len(h.Res.Leaked) > 0 && !h.Res.Killed {
				vs = append(vs, viol("leak", "left behind after every call returned: %s", strings.Join(h.Res.Leaked, "; ")))
			}
			for _, r := range h.Ops {
				if !r.Done {
					if !h.Res.Killed {
						vs = append(vs, viol("stuck", "never returns: %s", r.where()))
					}
					continue
				}
				st.Count["calls returned"]++
			}
			return vs
		},
		Rule: "a case is one simulated run in which clients mix every operation of the library under every kind of fault and interleaving; non-trivial if the run was preempted or met a fault",
		Real: append([]string{"writer/terminal", "cmd/wasm"}, realOut4...), Stub: append([]string{"termbox, syscall/js"}, stubEnv...),
	})

	register(&Prop{
		ID:      "C14",
		Batches: tiers(330, 9000),
		Gen:     genDebug,
		Check:   checkDebug,
		Rule:    "a case is one simulated run with debugging switched on by call or environment (or switched off by other values) while the disk the drafts go to refuses opens, writes and closes; non-trivial if a fault fired or the run was preempted",
		Real:    realOut4, Stub: stubEnv,
	})
}

func genConcurrent(r *RNG, batch int, tier string) []*Run {
	maxV := Pick(r, 1, 2, 2, 3)
	if batch%15 == 6 {
		maxV = 7
	}
	var reqs []*Req
	for i := 0; i < 2+r.N(3); i++ {
		switch {
		case r.P(12):
			q := genBadReq(r)
			if len(q.Text) < 400 {
				reqs = append(reqs, q)
				continue
			}
			fallthrough
		default:
			reqs = append(reqs, genReq(r, maxV))
		}
	}
	good := []*Req{genGood(r, maxV), genGood(r, min(maxV, 2))}
	var wrs []*WSpec
	for i := 0; i < 3; i++ {
		w := simpleWr(r)
		w.Opts = noShape(w.Opts)
		wrs = append(wrs, w)
	}
	var share []*WSpec
	for i := 0; i < 2; i++ {
		share = append(share, &WSpec{Kind: "std", Opts: noShape(genImgOpts(r, 5)), Share: i + 1})
	}
	own := func(w *WSpec) *WSpec {
		c := *w
		c.Sink.Yield = r.N(3)
		return callBack(r, &c, reqs, wrs, false, false)
	}
	debug := 0
	if r.P(20) {
		debug = 1 + r.N(2)
	}
	var runs []*Run
	n := 3
	for i := 0; i < n; i++ {
		run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r), CPUs: Pick(r, 1, 2, 4, 16)}
		if run.Sched.Policy == "seq" {
			run.Sched.Policy, run.Sched.Param = "hot", 8
		}
		if i == 0 {
			run.Tag = "cold"
		}
		if debug == 1 {
			run.Env = map[string]string{"QRCODE_DEBUG": Pick(r, "1", "true", "TRUE", "enabled", "ENABLED")}
			if r.P(60) {
				run.Dirs = []string{"draft"}
			}
		}
		if debug == 2 && i == 1 {
			run.Setup = append(run.Setup, &Op{K: "setdebug"})
		}
		sharing := i > 0
		if i == 0 && r.P(25) {
			sharing = true
		}
		if sharing {
			for j, q := range good {
				run.Setup = append(run.Setup, &Op{K: "new", Q: 20 + j, Req: q})
			}
			for _, w := range share {
				run.Setup = append(run.Setup, &Op{K: "mkopts", N: w.Share, Wr: w})
			}
		}
		nc := 2 + r.N(3)
		if r.P(15) {
			nc = 5
		}
		for c := 0; c < nc; c++ {
			var ops []*Op
			for k := 0; k < 1+r.N(3); k++ {
				switch x := r.N(100); {
				case x < 55 || !sharing:
					q := reqs[r.N(len(reqs))]
					ops = append(ops, newRead(k, q)...)
					if r.P(40) {
						ops = append(ops, saveOp(k, k, own(wrs[r.N(len(wrs))])))
					}
				case x < 62:
					ops = append(ops, &Op{K: "read", Q: 20 + r.N(2)})
				case x < 66:
					ops = append(ops, &Op{K: "dim", Q: 20 + r.N(2)})
				case x < 85:
					ops = append(ops, saveOp(20+r.N(2), k, own(share[r.N(2)])))
				default:
					ops = append(ops, saveOp(20+r.N(2), k, own(wrs[r.N(len(wrs))])))
				}
			}
			run.Clients = append(run.Clients, ops)
		}
		if sharing {
			for _, w := range share {
				run.Final = append(run.Final, &Op{K: "chkopts", N: w.Share})
			}
		}
		ownPaths(run)
		runs = append(runs, run)
	}
	base := &Run{Tag: "baseline", Sched: seqSched(r), Clients: [][]*Op{nil}}
	for i, q := range reqs {
		base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
		for j, w := range wrs {
			base.Clients[0] = append(base.Clients[0], saveOp(i, j, w))
		}
	}
	for i, q := range good {
		base.Clients[0] = append(base.Clients[0], newRead(20+i, q)...)
		for j, w := range append(append([]*WSpec(nil), wrs...), share...) {
			c := *w
			c.Share = 0
			base.Clients[0] = append(base.Clients[0], saveOp(20+i, j, &c))
		}
	}
	ownPaths(base)
	return append(runs, base)
}

// genPicFile draws the content of a picture file; the second result tells
// whether it is damaged.
func genPicFile(r *RNG, half bool) (*FSpec, bool) {
	m := &ImgSpec{Kind: Pick(r, "noise", "gray", "solid", "alpha", "paletted", "check", "white", "black"), W: 1 + r.N(40), H: 1 + r.N(40), Seed: r.U() >> 40}
	if half && r.P(40) {
		m.Kind, m.W, m.H = "quarters", 20+r.N(150), 20+r.N(150)
	}
	bigPic(r, m, 200)
	f := &FSpec{Img: m, Fmt: Pick(r, "png", "png", "jpeg")}
	switch x := r.N(100); {
	case x < 40:
		return f, false
	case x < 60:
		n := len(f.Bytes())
		f.Trunc = 1 + r.N(n)
		if r.P(30) {
			f.Trunc = 1 + r.N(min(n, 12))
		}
	case x < 75:
		for i := 0; i < 1+r.N(3); i++ {
			f.Flip = append(f.Flip, r.N(1<<20))
		}
	case x < 82:
		return &FSpec{Raw: []byte{}}, true
	case x < 88:
		return &FSpec{Fill: 1 + r.N(5000)}, true
	case x < 94:
		return &FSpec{Raw: Pick(r, []byte("\x89PNG\r\n\x1a\n"), []byte("\xff\xd8\xff"), []byte("P6 1 1 255\n..."), []byte("<svg/>"), []byte("\xff\xd8\xff\xd9"))}, true
	default:
		if half {
			return f, false
		}
		f.Fmt = "gif"
	}
	return f, true
}

func genPictures(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	for i := 0; i < 4; i++ {
		run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r), Files: map[string]*FSpec{}, Dirs: []string{"pic"}, X: map[string]int{}}
		for c := 0; c < 1+r.N(3); c++ {
			ops := newRead(0, genGood(r, 2))
			for k := 0; k < 1+r.N(4); k++ {
				var opts []IOpt
				for _, o := range genImgOpts(r, 8) {
					switch o.K {
					case "logo", "halftoneimg", "shape", "shapes":
					default:
						opts = append(opts, o)
					}
				}
				if r.P(60) {
					opts = append(opts, IOpt{K: "mult", I: []int{Pick(r, 1, 2, 3)}})
				}
				if r.P(50) {
					opts = append(opts, IOpt{K: "safe"})
				}
				if r.P(30) && !hasOpt(opts, "bgt") {
					opts = append(opts, IOpt{K: "circle"})
				}
				pos := r.N(len(opts) + 1)
				var fo, wo []IOpt
				for n := 0; n < 1+r.N(2)*r.N(2); n++ {
					role := Pick(r, "logopng", "logojpeg", "halftone")
					path := fmt.Sprintf("pic/c%d_%d_%d%s", c, k, n, Pick(r, ".png", ".jpg", ".jpeg", "", ".gif"))
					if r.P(8) {
						path = oddPath(r, run, 100*c+10*k+n)
					}
					f, dam := genPicFile(r, role == "halftone")
					if dam {
						run.X["damaged"]++
					}
					if role != "halftone" && f.Img != nil && f.Fmt != "gif" && r.P(70) {
						f.Fmt = role[4:]
					}
					if role != "halftone" && !dam && f.Img != nil && r.P(3) {
						// a large logo on a picture which is large enough
						f.Img.W, f.Img.H = Pick(r, 200, 256, 300, 513, 600, 800), 100+r.N(700)
						opts = append(opts, IOpt{K: "width", I: []int{40}}, IOpt{K: "mult", I: []int{1}})
					}
					switch x := r.N(100); {
					case x < 8: // missing
						run.X["damaged"]++
					case x < 11:
						run.Dirs = append(run.Dirs, path)
					case x < 20:
						run.Files[path] = f
						run.Faults = append(run.Faults, fault("open", path, 0, 0, Pick(r, "EACCES", "EMFILE", "EIO", "ENOENT"), 0))
					case x < 40 && !dam:
						run.Files[path] = f
						n := len(f.Bytes())
						if n > 16 {
							at := r.N(n - 16)
							if r.P(30) {
								at = r.N(min(n-16, 10))
							}
							run.Faults = append(run.Faults, fault("read", path, 0, int64(at), "EIO", 0))
						}
					default:
						run.Files[path] = f
					}
					fo = append(fo, IOpt{K: role, S: path})
					wo = append(wo, IOpt{K: "worldimg", S: role, F2: path})
					if r.P(25) { // the file changes between saves
						g, d := genPicFile(r, role == "halftone")
						if d {
							run.X["damaged"]++
						}
						if r.P(50) { // but not its length
							f.Pad = max(len(f.Bytes()), len(g.Bytes()))
							g.Pad = f.Pad
						}
						ops = append(ops, saveOp(0, k, &WSpec{Kind: "std", Opts: ins(opts, pos, fo)}))
						ops = append(ops, &Op{K: "setfile", S: path, F: g})
					}
				}
				a := saveOp(0, k, &WSpec{Kind: "std", Opts: ins(opts, pos, fo)})
				b := saveOp(0, k, &WSpec{Kind: "std", Opts: ins(opts, pos, wo)})
				a.N, b.N = k+1, k+1
				if r.P(50) {
					a, b = b, a
				}
				ops = append(ops, a, b)
			}
			run.Clients = append(run.Clients, ops)
		}
		runs = append(runs, run)
	}
	return runs
}

func hasOpt(o []IOpt, k string) bool {
	for _, x := range o {
		if x.K == k {
			return true
		}
	}
	return false
}

func ins(o []IOpt, at int, x []IOpt) []IOpt {
	out := append([]IOpt(nil), o[:at]...)
	out = append(out, x...)
	return append(out, o[at:]...)
}

func checkPictures(h *Hist, st *State) []Viol {
	vs := remember(h, st)
	if h.Res.Failure != nil {
		return append(vs, viol("result", "run %s ends in %s", h.Run.Tag, h.failure()))
	}
	type pair struct{ file, direct *Res }
	pairs := map[string]*pair{}
	var keys []string
	for _, r := range h.saves() {
		if !r.Done {
			continue
		}
		if r.Panic != "" || r.Failed {
			vs = append(vs, viol("result", "fails (%s%s) because of a picture file: %s", r.Panic, r.Err, r.where()))
			continue
		}
		if r.Op.N == 0 {
			continue
		}
		k := fmt.Sprintf("%d.%d", r.Client, r.Op.N)
		p := pairs[k]
		if p == nil {
			p = &pair{}
			pairs[k] = p
			keys = append(keys, k)
		}
		if hasOpt(r.Spec.Opts, "worldimg") {
			p.direct = r
			for _, o := range r.Spec.Opts {
				if o.K == "worldimg" {
					if o.img == nil {
						st.Count[o.S+" unreadable"]++
					} else {
						st.Count[o.S+" read"]++
					}
				}
			}
		} else {
			p.file = r
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		p := pairs[k]
		if p.file == nil || p.direct == nil || !matching(p.file.Spec.Opts, p.direct.Spec.Opts) {
			continue
		}
		a, ok1 := p.file.output(p.file.Spec)
		b, ok2 := p.direct.output(p.direct.Spec)
		if !ok1 || !ok2 {
			continue
		}
		st.Count["pairs compared"]++
		if string(a) != string(b) {
			vs = append(vs, viol("picture", "%d bytes with the picture from its file, %d bytes with the same picture (none, if the file is unreadable) handed over: %s", len(a), len(b), p.file.where()))
			continue
		}
		if bm := h.symOf(p.direct, st); bm != nil && judgeable(cfgOf(p.direct.Spec.Opts)) {
			if m := CheckOutput(p.direct.Spec, bm, b); m != "" {
				vs = append(vs, viol("symbol", "%s: %s", m, p.file.where()))
			}
		}
	}
	if o := h.W.OpenHandles(); len(o) > 0 {
		vs = append(vs, viol("leak", "picture files are still open: %v", o))
	}
	after := h.W.Snapshot()
	set := map[string]bool{}
	for _, r := range h.Ops {
		if r.Op.K == "setfile" {
			set[h.W.Abs(r.Op.S)] = true
		}
	}
	var names []string
	for p := range after {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		if b, ok := h.Before[p]; (!ok || b != after[p]) && !set[p] {
			vs = append(vs, viol("touched", "%s was changed", p))
		}
	}
	return vs
}

// matching tells whether two option lists are the same but for where pictures
// come from.
func matching(a, b []IOpt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if y.K == "worldimg" {
			if x.K != y.S || x.S != y.F2 {
				return false
			}
		} else if x.K != y.K {
			return false
		}
	}
	return true
}

// anyKey is a key of the keyboard: a character, Enter, Esc, an arrow, Ctrl and
// a letter.
func anyKey(r *RNG) string {
	return Pick(r, "q", "x", "Q", "1", "é", "日", "#13", "#27", "#32", "#9", "#127", "#8", "#3", "#4", "#0", "#65535", "#65517", "#65514", fmt.Sprintf("#%d", 1+r.N(31)))
}

func genTerminal(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	for i := 0; i < 6; i++ {
		run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r)}
		t := &TSpec{W: 200, H: 120, AutoKey: true}
		maxV := Pick(r, 1, 2, 4, 8)
		switch r.N(6) {
		case 0:
			t.W, t.H = 1+r.N(30), 1+r.N(20)
		case 1:
			t.W, t.H = 46, 24+r.N(2)
		case 2:
			t.W, t.H = 40+r.N(30), 20+r.N(20)
		case 3:
			t.W, t.H = 400, 200
			maxV = 12
		}
		for k := 0; k < r.N(5)*r.N(3); k++ {
			e := TEv{K: Pick(r, "none", "resize", "mouse", "interrupt", "resize", "error")}
			if e.K == "resize" {
				e.W, e.H = 1+r.N(220), 1+r.N(120)
			}
			t.Events = append(t.Events, e)
		}
		if r.P(40) {
			t.Events = append(t.Events, TEv{K: "key", P: anyKey(r)})
		}
		switch x := r.N(100); {
		case x < 10:
			t.InitErr = Pick(r, "EIO", "EACCES", "ENOENT", "EMFILE")
		case x < 28:
			t.FlushErr, t.FlushNth = Pick(r, "EIO", "EPIPE", "EAGAIN"), 1+r.N(2)
		}
		t.Press = anyKey(r)
		run.Term = t
		run.Clients = append(run.Clients, nil)
		saves := 1 + r.N(3)
		if i == 4 && batch%60 == 20 { // shown again and again
			run.Tag, run.Sched = "marathon", seqSched(r)
			run.Sched.Max = 6e9
			maxV = 2
			saves = 100 + r.N(100)
		}
		for k := 0; k < saves; k++ {
			ops := newRead(k, genGood(r, maxV))
			ops = append(ops, saveOp(k, k, &WSpec{Kind: "term"}))
			if r.P(20) {
				ops = append(ops, saveOp(k, 50, simpleWr(r)))
			}
			run.Clients[0] = append(run.Clients[0], ops...)
		}
		if r.P(30) { // somebody else is busy meanwhile
			ops := newRead(0, genGood(r, 2))
			ops = append(ops, saveOp(0, 0, simpleWr(r)))
			run.Clients = append(run.Clients, ops)
		}
		ownPaths(run)
		if i == 5 && batch%3 == 0 {
			run.Tag = "nokey"
			t.AutoKey, t.InitErr, t.FlushErr = false, "", ""
			var ev []TEv
			for _, e := range t.Events {
				if e.K != "key" {
					ev = append(ev, e)
				}
			}
			t.Events = ev
			run.Clients = [][]*Op{{run.Clients[0][0], run.Clients[0][1], run.Clients[0][2]}}
		}
		runs = append(runs, run)
	}
	return runs
}

func checkTerminal(h *Hist, st *State) []Viol {
	vs := remember(h, st)
	t := h.Term
	var terms []*Res
	for _, r := range h.saves() {
		if r.Spec.Kind == "term" {
			terms = append(terms, r)
		} else if r.Done && (r.Failed || r.Panic != "") && !faulty(r) {
			vs = append(vs, viol("result", "fails (%s%s): %s", r.Panic, r.Err, r.where()))
		}
	}
	for _, r := range h.Ops {
		if r.Op.Wr != nil && r.Op.Wr.Kind == "term" && !h.made(r) {
			return vs // a terminal without a symbol to show
		}
	}
	if len(terms) == 0 {
		return vs
	}
	key := t.AutoKey
	if h.Run.Term != nil {
		for _, e := range h.Run.Term.Events {
			key = key || e.K == "key"
		}
	}
	if !key && t.InitErr == "" && t.FlushErr == "" {
		// nobody presses a key: the picture stays
		f := h.Res.Failure
		switch r := terms[0]; {
		case r.Done:
			vs = append(vs, viol("hold", "returned before a key was pressed (%v): %s", t.Delivered, r.where()))
		case f == nil || f.Kind != "deadlock":
			vs = append(vs, viol("hold", "%s while waiting for a key: %s", h.failure(), r.where()))
		case t.Closes > 0:
			vs = append(vs, viol("hold", "the terminal was closed before a key was pressed: %s", r.where()))
		default:
			st.Count["waits for a key"]++
			if bm := h.symOf(r, st); bm != nil {
				if m := CheckTerm(bm, t.Front, t.BW, t.BH); m != "" {
					vs = append(vs, viol("picture", "while waiting: %s: %s", m, r.where()))
				}
			}
		}
		return vs
	}
	if h.Res.Failure != nil {
		return append(vs, viol("result", "run %s ends in %s", h.Run.Tag, h.failure()))
	}
	fails := 0
	for _, r := range terms {
		if !r.Done {
			continue
		}
		switch {
		case t.InitErr != "":
			st.Count["terminal cannot be opened"]++
			if r.Panic != "" {
				vs = append(vs, viol("result", "panic %q because the terminal cannot be opened: %s", r.Panic, r.where()))
			} else if !r.Failed {
				vs = append(vs, viol("silent", "success although the terminal cannot be opened: %s", r.where()))
			}
		case r.Panic != "":
			vs = append(vs, viol("result", "panic %q: %s", r.Panic, r.where()))
		case r.Failed:
			fails++
			if t.FlushErr == "" {
				vs = append(vs, viol("result", "fails (%s) on a working terminal: %s", r.Err, r.where()))
			}
		default:
			st.Count["pictures shown"]++
			if bm := h.symOf(r, st); bm != nil && r.Term != nil {
				if m := CheckTerm(bm, r.Screen, r.TermW, r.TermH); m != "" {
					vs = append(vs, viol("picture", "%s: %s", m, r.where()))
				}
			}
		}
	}
	if t.FlushFails > fails {
		vs = append(vs, viol("silent", "the terminal refused to show %d pictures, %d saves failed", t.FlushFails, fails))
	}
	if t.InitErr == "" {
		if t.Closes != t.Inits {
			vs = append(vs, viol("closes", "the terminal was opened %d times and closed %d times: %v", t.Inits, t.Closes, t.Order))
		}
		// between opening and closing there is one key press, unless showing failed
		open, keys, failed := false, 0, false
		ev := 0
		for _, o := range t.Order {
			switch o {
			case "init":
				if open {
					vs = append(vs, viol("closes", "opened while open: %v", t.Order))
				}
				open, keys, failed = true, 0, false
			case "flush-failed":
				failed = true
			case "event":
				if ev < len(t.Delivered) {
					if t.Delivered[ev].Type == simtermbox.EventKey {
						keys++
					} else if keys > 0 {
						vs = append(vs, viol("hold", "waits on after a key was pressed: %v", t.Order))
					}
					ev++
				}
			case "close":
				if open && !failed && keys != 1 {
					vs = append(vs, viol("hold", "%d keys were pressed before the picture was taken away: %v", keys, t.Order))
				}
				if open && failed && keys > 0 {
					vs = append(vs, viol("hold", "waits for a key although nothing is shown: %v", t.Order))
				}
				open = false
			}
		}
	}
	if t.Late > 0 {
		vs = append(vs, viol("closes", "%d operations on a terminal which is not open: %v", t.Late, t.Order))
	}
	return vs
}

// genCrowd draws a run in which many clients build and save at the same time.
func genCrowd(r *RNG) *Run {
	run := &Run{Tag: "crowd", Sched: genSched(r), CPUs: Pick(r, 1, 2, 4, 8)}
	if r.P(60) {
		run.Sched.Policy, run.Sched.Param = "rand", 0
		if r.P(50) {
			run.Sched.Policy, run.Sched.Param = "fine", 64
		}
	}
	var reqs []*Req
	for i := 0; i < 1+r.N(3); i++ {
		reqs = append(reqs, genReq(r, 1))
	}
	save := r.P(40)
	meet := r.P(50) // every destination waits for the next client
	for c := Pick(r, 6, 10, 20, 40, 70); c > 0; c-- {
		ops := []*Op{{K: "new", Q: 0, Req: reqs[r.N(len(reqs))]}}
		if save {
			w := Pick(r, &WSpec{Kind: "rec"}, &WSpec{Kind: "comp", Block: 1}, &WSpec{Kind: "std", Opts: []IOpt{{K: "png"}, {K: "width", I: []int{1}}, {K: "border", I: []int{0}}}})
			w.Sink.Meet = meet
			ops = append(ops, saveOp(0, 0, w))
		}
		run.Clients = append(run.Clients, ops)
	}
	return run
}

func genEverything(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	if batch%9 == 5 {
		return append(runs, genCrowd(r))
	}
	n := 5
	big := batch%40 == 11
	marathon := batch%60 == 21
	if big || marathon {
		n = 1
	}
	for i := 0; i < n; i++ {
		run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r), CPUs: Pick(r, 1, 2, 4, 8), Dirs: []string{"dir"}, Files: map[string]*FSpec{}}
		maxV := Pick(r, 1, 2, 3, 6)
		if marathon {
			maxV = 1
		}
		if big {
			maxV = 40
		}
		if r.P(25) {
			run.Env = map[string]string{"QRCODE_DEBUG": Pick(r, "1", "true", "0", "")}
			if r.P(50) {
				run.Dirs = append(run.Dirs, "draft")
			}
		}
		if r.P(30) {
			for k := 0; k < 1+r.N(3); k++ {
				run.Faults = append(run.Faults, fault(Pick(r, "open", "write", "close", "read"), "", 1+r.N(6), 0, errnos[r.N(len(errnos))], r.N(3)))
			}
		}
		run.Term = &TSpec{W: 1 + r.N(120), H: 1 + r.N(60), AutoKey: true}
		if r.P(20) {
			run.Term.FlushErr, run.Term.FlushNth = "EIO", 1
		}
		if r.P(10) {
			run.Term.InitErr = "EIO"
		}
		for k := 0; k < r.N(4); k++ {
			run.Term.Events = append(run.Term.Events, TEv{K: Pick(r, "none", "mouse", "interrupt", "resize"), W: 1 + r.N(90), H: 1 + r.N(40)})
		}
		pic, _ := genPicFile(r, true)
		run.Files["pic"] = pic
		nc := 1 + r.N(3)
		js := r.P(20)
		if js {
			run.Setup = append(run.Setup, &Op{K: "jsmain"})
		}
		for c := 0; c < nc; c++ {
			var ops []*Op
			reps := 1 + r.N(4)
			if marathon {
				reps = 300 / nc
				run.Sched.Max = 6e9
			}
			for k := 0; k < reps; k++ {
				q := genReq(r, maxV)
				if r.P(15) || marathon && r.P(40) {
					q = genBadReq(r)
				}
				if r.P(8) && !big {
					q.Opts = append(q.Opts, EOpt{Pick(r, "mode", "ec", "ver", "minver"), Pick(r, -1, 0, 3, 41, 1000, -1<<31)})
				}
				if big {
					class := Pick(r, "num", "alnum", "kanji", "bin")
					ref, api := modeOfClass(class)
					q = &Req{Text: genText(r, class, refqr.Capacity(ref, 40, r.N(4))-r.N(3)), Opts: []EOpt{{"mode", api}, {"ec", 1 + r.N(4)}}}
				}
				ops = append(ops, newRead(k, q)...)
				for s := 0; s < r.N(3); s++ {
					var w *WSpec
					switch x := r.N(100); {
					case x < 30:
						w = genWr(r, 6)
					case x < 45 && c == 0:
						w = &WSpec{Kind: "term"}
					case x < 55:
						w = &WSpec{Kind: "rec", Sink: SinkSpec{Yield: r.N(9), Panic: r.P(20)}}
					case x < 65:
						w = &WSpec{Kind: "std", Opts: []IOpt{{K: "enc", S: Pick(r, "panic", "no")}}}
					case x < 75:
						w = &WSpec{Kind: "std", Opts: []IOpt{{K: "width", I: []int{1 + r.N(6)}}, {K: Pick(r, "halftone", "logopng", "logojpeg"), S: Pick(r, "pic", "missing", "dir")}}}
					default:
						w = simpleWr(r)
					}
					if r.P(30) && (w.Kind == "std" || w.Kind == "comp") {
						w = onPath(w, "o.png")
					} else if r.P(40) && w.Kind == "std" {
						w.Sink = genSinkFault(r)
						w.Sink.Panic = r.P(20)
					}
					if w.Kind != "term" {
						w = callBack(r, w, []*Req{genReq(r, 1), genReq(r, 1), genBadReq(r)}, []*WSpec{{Kind: "rec"}, {Kind: "comp", Block: 1}, {Kind: "std", Opts: []IOpt{{K: "width", I: []int{1}}}}}, true, true)
					}
					ops = append(ops, saveOp(k, s, w))
					if w.Kind == "std" && r.P(20) {
						ops = append(ops, &Op{K: "attr", W: s, N: 17 + 4*r.R(1, 40)})
					}
				}
				if r.P(6) {
					ops = append(ops, genProcOp(r, *genPSpec(r)))
				}
				if r.P(6) {
					p := fmt.Sprintf("kit%d_%d%s", c, k, Pick(r, ".png", ".jpg", ".txt"))
					ops = append(ops, &Op{K: "imgsave", S: p, F: &FSpec{Img: genKitImg(r)}}, &Op{K: "imgread", S: p})
				}
				if r.P(10) {
					ops = append(ops, &Op{K: "mutate", Q: k})
				}
				if js && r.P(60) {
					ops = append(ops, &Op{K: "js", JS: genJSArgs(r)})
				}
			}
			run.Clients = append(run.Clients, ops)
		}
		if r.P(12) {
			run.Setup = append(run.Setup, &Op{K: "setdebug"})
		}
		ownPaths(run)
		runs = append(runs, run)
	}
	return runs
}

var debugOn = []string{"1", "true", "TRUE", "enabled", "ENABLED"}

func genDebug(r *RNG, batch int, tier string) []*Run {
	maxV := Pick(r, 1, 2, 3)
	if batch%30 == 9 {
		maxV = 8
	}
	var reqs []*Req
	for i := 0; i < 3; i++ {
		reqs = append(reqs, genReq(r, maxV))
	}
	if r.P(40) {
		reqs[2] = genBadReq(r)
	}
	var wrs []*WSpec
	for i := 0; i < 2; i++ {
		w := simpleWr(r)
		for w.Kind == "file" {
			w = simpleWr(r)
		}
		wrs = append(wrs, w)
	}
	how := Pick(r, "call", "call", "env", "env", "off", "other", "late")
	work := func(run *Run, nc int) {
		for c := 0; c < nc; c++ {
			var ops []*Op
			for i, q := range reqs {
				if c == 0 || r.P(60) {
					ops = append(ops, newRead(i, q)...)
					if r.P(60) {
						w := *wrs[r.N(len(wrs))]
						w.Sink.Yield = r.N(2)
						ops = append(ops, saveOp(i, i, &w))
					}
				}
			}
			run.Clients = append(run.Clients, ops)
		}
	}
	var runs []*Run
	if how == "call" || how == "late" {
		base := &Run{Tag: "before", Sched: seqSched(r)}
		work(base, 1)
		runs = append(runs, base)
	}
	for i := 0; i < 3; i++ {
		run := &Run{Tag: fmt.Sprint(how, i), Sched: genSched(r), CPUs: Pick(r, 1, 2, 4), Files: map[string]*FSpec{
			"keep.txt": {Raw: []byte("mine")}, "mask_0.jpeg": {Fill: 40},
		}, XS: map[string]string{"debug": "off"}}
		switch how {
		case "env":
			run.Env = map[string]string{"QRCODE_DEBUG": debugOn[r.N(len(debugOn))]}
			run.XS["debug"] = "on"
		case "call", "late":
			run.Setup = append(run.Setup, &Op{K: "setdebug"})
			run.XS["debug"] = "on"
			if how == "late" {
				run.Env = map[string]string{"QRCODE_DEBUG": "0"}
			}
		case "other":
			run.Env = map[string]string{"QRCODE_DEBUG": Pick(r, "0", "false", "off", "", "2", "no", "t", "T", "True", "tRUE", "yes", "on", "enable", "Enabled", "1 ", " true", "01", "y", "debug", "11")}
		}
		if r.P(75) {
			run.Dirs = append(run.Dirs, "draft")
			if r.P(60) {
				run.Files["draft/notes.txt"] = &FSpec{Raw: []byte("notes")}
			}
			if r.P(40) { // left from an earlier execution
				run.Files["draft/mask_3.jpeg"] = &FSpec{Fill: 200000}
				run.Files["draft/qrcode_mask_0.jpeg"] = &FSpec{Raw: []byte{}}
			}
		} else if r.P(50) {
			run.Files["draft"] = &FSpec{Raw: []byte("a file, not a directory")}
		}
		if i > 0 {
			for k := 0; k < 1+r.N(3); k++ {
				f := fault(Pick(r, "open", "open", "write", "write", "close"), "", 1+r.N(20), 0, Pick(r, "ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "EROFS"), r.N(4))
				if f.Op == "write" && r.P(50) {
					f.Nth, f.At = 0, int64(r.N(20000))
				}
				run.Faults = append(run.Faults, f)
			}
		}
		work(run, 1+r.N(3))
		ownPaths(run)
		runs = append(runs, run)
	}
	return runs
}

// debugging tells if the run switches debugging on.
func debugging(run *Run) bool {
	for _, o := range run.Setup {
		if o.K == "setdebug" {
			return true
		}
	}
	for _, v := range debugOn {
		if run.Env["QRCODE_DEBUG"] == v {
			return true
		}
	}
	return false
}

// checkDrafts judges the drafts of the symbol built last, on a disk which
// took all of them.
func checkDrafts(h *Hist, bm [][]bool, st *State) string {
	s, err := refqr.Read(bm, false)
	if err != nil {
		return ""
	}
	n := len(bm)
	after := h.W.Snapshot()
	if _, ok := after["/work/draft/"]; !ok {
		return ""
	}
	for k := 0; k < 8; k++ {
		for _, f := range []string{"mats_%d", "mask_%d", "mats_mask_%d", "qrcode_mask_%d"} {
			p := fmt.Sprintf("/work/draft/"+f+".jpeg", k)
			data, ok := after[p]
			if !ok {
				return "there is no " + p
			}
			img, err := jpeg.Decode(strings.NewReader(data))
			if err != nil {
				return fmt.Sprintf("%s is no picture: %v", p, err)
			}
			if !strings.HasSuffix(data, "\xff\xd9") {
				return p + " has something after its picture"
			}
			if w := 10*n + 20; img.Bounds().Dx() != w || img.Bounds().Dy() != w {
				return fmt.Sprintf("%s is %v, want %dx%d", p, img.Bounds().Size(), w, w)
			}
			st.Count["drafts judged"]++
			if f != "qrcode_mask_%d" || k != s.Mask {
				continue
			}
			for y := range bm {
				for x := range bm[y] {
					g := color.GrayModel.Convert(img.At(15+10*x, 15+10*y)).(color.Gray).Y
					if bm[y][x] != (g < 128) {
						return fmt.Sprintf("%s does not show the symbol: module %d,%d", p, x, y)
					}
				}
			}
			st.Count["drafts of the symbol"]++
		}
	}
	return ""
}

func checkDebug(h *Hist, st *State) []Viol {
	var vs []Viol
	if h.Res.Failure != nil {
		return append(vs, viol("result", "run %s ends in %s", h.Run.Tag, h.failure()))
	}
	vs = append(vs, sameOutcomes(h, st, "differs")...)
	var last [][]bool
	for _, oc := range h.outcomes() {
		w := WantOf(oc.req)
		switch {
		case oc.bm != nil:
			last = oc.bm
			if m := CheckSymbol(oc.req, oc.bm); m != "" {
				vs = append(vs, viol("symbol", "%s: %s", m, oc.res.where()))
			} else if m := CheckMask(oc.bm, st); m != "" {
				vs = append(vs, viol("symbol", "%s: %s", m, oc.res.where()))
			}
		case oc.out == "panic":
			vs = append(vs, viol("result", "panic %q: %s", oc.res.Panic, oc.res.where()))
		case oc.out == "err" && w.MustWork:
			vs = append(vs, viol("result", "fails (%s): %s", oc.res.Err, oc.res.where()))
		}
	}
	for _, r := range h.saves() {
		switch {
		case !r.Done:
		case r.Panic != "":
			vs = append(vs, viol("result", "panic %q: %s", r.Panic, r.where()))
		case r.Failed && !faulty(r):
			vs = append(vs, viol("result", "fails (%s) although nothing refused its bytes: %s", r.Err, r.where()))
		case !r.Failed:
			vs = append(vs, checkBytes(h, st, r, true)...)
		}
	}
	debug := h.Run.XS["debug"]
	st.Count["runs with debugging "+debug]++
	after := h.W.Snapshot()
	var names []string
	for p := range after {
		names = append(names, p)
	}
	for p := range h.Before {
		if _, ok := after[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		b, was := h.Before[p]
		a, is := after[p]
		if was == is && a == b {
			continue
		}
		if debug == "on" && (strings.HasPrefix(p, "/work/draft/") && strings.HasSuffix(p, ".jpeg") || p == "/work/draft/") && is {
			st.Count["drafts"]++
			continue
		}
		if debug == "" {
			continue
		}
		vs = append(vs, viol("touched", "debugging is %s and %s was changed", debug, p))
	}
	if debug == "on" && debugging(h.Run) && last != nil && len(h.Run.Clients) == 1 && len(h.Run.Faults) == 0 {
		if m := checkDrafts(h, last, st); m != "" {
			vs = append(vs, viol("draft", "%s", m))
		}
	}
	if o := h.W.OpenHandles(); len(o) > 0 {
		vs = append(vs, viol("leak", "still open: %v", o))
	}
	if debug == "off" {
		for _, l := range h.W.Logs() {
			if strings.Contains(l, "DEBUG") {
				vs = append(vs, viol("touched", "debugging is off and logs %q", clip(l)))
				break
			}
		}
	}
	return vs
}
