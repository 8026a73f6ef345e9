package core

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

var realOut4 = []string{"package qrcode", "writer/standard with shapes and imgkit", "writer/compressed", "writer/file", "image/png, image/jpeg, fogleman/gg, golang.org/x/image"}
var stubSink = []string{"byte sinks and custom encoders (harness, scripted failures)", "os, log, time (simulated world)", "goroutine scheduling, sync and channels (simulator)"}

func saveOp(q, w int, sp *WSpec) *Op { return &Op{K: "save", Q: q, W: w, Wr: sp} }

// ownPaths gives every writer on a path of a run a path of its own.
func ownPaths(run *Run) {
	fix := func(who string, ops []*Op) {
		for i, op := range ops {
			if op.Wr != nil && op.Wr.Path != "" && !strings.Contains(op.Wr.Path, "/") && op.Wr.Path != "dir" {
				c := *op.Wr
				c.Path = fmt.Sprintf("%s_%d_%s", who, i, strings.TrimLeft(filepath.Base(c.Path), "0123456789_"))
				op.Wr = &c
			}
		}
	}
	fix("s", run.Setup)
	for c, ops := range run.Clients {
		fix(fmt.Sprint("c", c), ops)
	}
	fix("f", run.Final)
}

func init() {
	register(&Prop{
		ID:      "C06",
		Batches: tiers(1900, 50000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			maxV := 2
			if batch%9 == 4 {
				maxV = 7
			}
			var reqs []*Req
			for i := 0; i < 1+r.N(2); i++ {
				reqs = append(reqs, genGood(r, maxV))
			}
			var wrs []*WSpec
			for i := 0; i < 2+r.N(3); i++ {
				w := genWr(r, 8)
				if r.P(25) {
					w = simpleWr(r)
				}
				wrs = append(wrs, w)
			}
			large := batch%31 == 17
			marathon := batch%90 == 20 && !large
			if marathon {
				for i := range wrs {
					wrs[i] = lightWr(r)
				}
			}
			if large {
				var q *Req
				q, wrs = genLarge(r)
				reqs = []*Req{q}
			}
			var runs []*Run
			base := &Run{Tag: "undisturbed", Sched: seqSched(r), Clients: [][]*Op{nil}}
			for i, q := range reqs {
				base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
				for j, w := range wrs {
					base.Clients[0] = append(base.Clients[0], saveOp(i, j, w))
				}
			}
			ownPaths(base)
			runs = append(runs, base)
			for n := 0; n < 5; n++ {
				run := &Run{Tag: fmt.Sprint("faulty", n), Sched: genSched(r)}
				nc := 1
				if large && n == 3 || marathon && n == 1 {
					break
				}
				if r.P(35) && !large {
					nc = 2 + r.N(2)
				}
				if r.P(30) { // files which are already there
					run.Dirs = append(run.Dirs, "dir")
				}
				for c := 0; c < nc; c++ {
					var ops []*Op
					nq := 1 + r.N(len(reqs))
					for i := 0; i < nq; i++ {
						ops = append(ops, newRead(i, reqs[i])...)
					}
					reps := 1 + r.N(4)
					if marathon {
						reps = 280
						run.Sched.Max = 6e9
					}
					for k := 0; k < reps; k++ {
						w := *wrs[r.N(len(wrs))]
						q := r.N(nq)
						switch x := r.N(100); {
						case x < 8:
							ops = append(ops, saveOp(q, k, &WSpec{Kind: "rec", Sink: SinkSpec{Err: anySinkErr(r), Yield: r.N(3)}}))
							continue
						case x < 10:
							ops = append(ops, saveOp(q, k, &WSpec{Kind: "nil"}))
							continue
						case x < 13:
							ops = append(ops, saveOp(q, k, &WSpec{Kind: "file", Nil: true}))
							continue
						case x < 19:
							ops = append(ops, saveOp(q, k, &WSpec{Kind: "std", Opts: []IOpt{{K: "enc", S: anySinkErr(r)}}}))
							continue
						case x < 24: // a path which cannot be opened
							p := Pick(r, "missing/x.png", "dir", "/", "missing/../x/y.jpg")
							if p == "dir" && len(run.Dirs) == 0 { // several clients would share the file
								p = "missing/dir"
							}
							if w.Kind != "file" {
								ops = append(ops, saveOp(q, k, onPath(&w, p)))
							}
							continue
						}
						switch w.Kind {
						case "std", "comp":
							if r.P(35) {
								w = *onPath(&w, "out.png")
								if r.P(80) {
									w.Disk = []DFault{genDiskFault(r)}
								}
							} else if r.P(85) {
								w.Sink = genSinkFault(r)
							} else {
								w.Sink = SinkSpec{Yield: r.N(4)}
							}
							if r.P(10) {
								w.Sink.CloseErr = anyCloseErr(r)
							}
						case "file":
							if r.P(80) {
								for w.Disk == nil || w.Disk[0].Op == "open" {
									w.Disk = []DFault{genDiskFault(r)}
								}
								if r.P(40) && w.Disk[0].Op == "write" { // any of its many small writes
									w.Disk[0] = DFault{Op: "write", Nth: 1 + r.N(400), Err: "ENOSPC", Times: r.N(2)}
								}
							}
						}
						ops = append(ops, saveOp(q, k, callBack(r, &w, reqs, wrs, false, false)))
					}
					run.Clients = append(run.Clients, ops)
				}
				ownPaths(run)
				runs = append(runs, run)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol {
			vs := remember(h, st)
			for _, r := range h.saves() {
				vs = append(vs, checkResult(h, st, r)...)
			}
			return vs
		},
		Rule: "a case is one simulated run in which clients save symbols through every kind of writer while sinks, encoders, custom writers and the disk refuse bytes at seeded places; non-trivial if a fault fired or the run was preempted",
		Real: realOut4, Stub: stubSink,
	})

	register(&Prop{
		ID:      "C07",
		Batches: tiers(900, 24000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			var runs []*Run
			for i := 0; i < 4; i++ {
				run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r)}
				if r.P(60) {
					run.Sched = seqSched(r)
				}
				maxV := Pick(r, 1, 1, 2, 3, 5, 8)
				maxW := 24
				if maxV > 3 {
					maxW = 10
				}
				if i == 0 && batch%40 == 7 {
					maxV, maxW = 40, 4
				}
				big := i == 1 && batch%150 == 11
				switch {
				case big: // modules as wide as they get
					maxV, maxW = 1, 255
				case i == 2 && batch%6 == 1:
					maxV, maxW = 1, 70
				}
				reps := 0
				if i == 3 && batch%60 == 20 { // very many pictures of one process
					run.Tag, run.Sched = "marathon", seqSched(r)
					run.Sched.Max = 6e9
					maxV, maxW, reps = 1, 6, 80+r.N(80)
				}
				for c := 0; c < 1+r.N(2); c++ {
					var ops []*Op
					ops = append(ops, newRead(0, genGood(r, maxV))...)
					for k := 0; k < reps || k < 2+r.N(4); k++ {
						w := genWr(r, maxW)
						if big {
							if k > 0 || c > 0 {
								break
							}
							w = &WSpec{Kind: "std", Opts: []IOpt{{K: "png"}, {K: "width", I: []int{Pick(r, 127, 128, 200, 254, 255)}}, {K: "border", I: []int{Pick(r, 0, 1, 100, 300)}}}}
							if r.P(40) {
								w = &WSpec{Kind: "comp", Pad: Pick(r, 0, 300), Block: 100 + r.N(100)}
							}
						}
						if r.P(20) {
							w = onPath(w, "o.png")
						}
						w.Sink.Yield = r.N(3)
						ops = append(ops, saveOp(0, k, w))
						if strings.HasPrefix(w.Kind, "std") && r.P(30) {
							for j := 0; j < 1+r.N(3); j++ {
								ops = append(ops, &Op{K: "attr", W: k, N: 17 + 4*r.R(1, 40)})
							}
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				ownPaths(run)
				runs = append(runs, run)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol {
			vs := remember(h, st)
			for _, r := range h.saves() {
				if !r.Done {
					if f := h.Res.Failure; f != nil && !h.Res.Killed {
						vs = append(vs, viol("picture", "%s during %s", h.failure(), r.where()))
					}
					continue
				}
				if r.Panic != "" || r.Failed {
					vs = append(vs, viol("picture", "no picture: %s%s: %s", r.Panic, r.Err, r.where()))
					continue
				}
				vs = append(vs, checkBytes(h, st, r, true)...)
				for _, o := range r.Spec.Opts {
					st.Count["option "+o.K]++
				}
				st.Count["writer "+r.Spec.Kind]++
				if r.Shape != nil {
					if bm := h.symOf(r, st); bm != nil {
						if m := CheckShape(cfgOf(r.Spec.Opts), bm, r.Shape); m != "" {
							vs = append(vs, viol("shape", "%s: %s", m, r.where()))
						}
					}
				}
			}
			for _, r := range h.Ops {
				if r.Op.K == "attr" && r.Done && r.Panic == "" && r.Attr[6] != 0 && r.Spec != nil {
					c := cfgOf(r.Spec.Opts)
					n := r.Op.N
					st.Count["attributes compared"]++
					want := [7]int{n*c.bw + c.b[1] + c.b[3], n*c.bw + c.b[0] + c.b[2], c.b[0], c.b[1], c.b[2], c.b[3], c.bw}
					if r.Attr != want {
						vs = append(vs, viol("attribute", "Attribute(%d) is %v, want %v: %s", n, r.Attr, want, r.Spec))
					}
				}
			}
			return vs
		},
		NonTrivial: func(h *Hist) bool { return len(h.saves()) > 0 },
		Rule:       "a case is one simulated run in which symbols are saved through randomly configured writers and every output is decoded and compared with the symbol module by module; non-trivial if something was saved",
		Real:       realOut4, Stub: stubSink,
	})

	register(&Prop{
		ID:      "C08",
		Batches: tiers(1900, 50000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			reqs := []*Req{genGood(r, 2), genGood(r, 2)}
			var wrs []*WSpec
			for i := 0; i < 3; i++ {
				w := simpleWr(r)
				if batch%90 == 20 {
					w = lightWr(r)
				}
				wrs = append(wrs, w)
			}
			base := &Run{Tag: "undisturbed", Sched: seqSched(r), Clients: [][]*Op{nil}}
			for i, q := range reqs {
				base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
				for j, w := range wrs {
					base.Clients[0] = append(base.Clients[0], saveOp(i, j, w))
				}
			}
			ownPaths(base)
			runs := []*Run{base}
			marathon := batch%90 == 20
			for n := 0; n < 6; n++ {
				run := &Run{Tag: fmt.Sprint("r", n), Sched: genSched(r)}
				if marathon && n == 1 {
					break
				}
				shared := r.P(40)
				if shared {
					run.Setup = append(run.Setup, newRead(0, reqs[0])...)
					run.Setup = append(run.Setup, newRead(1, reqs[1])...)
				}
				for c := 0; c < 1+r.N(3); c++ {
					var ops []*Op
					if !shared {
						ops = append(ops, newRead(0, reqs[0])...)
						ops = append(ops, newRead(1, reqs[1])...)
					}
					reps := 1 + r.N(5)
					if marathon {
						reps = 200
						run.Sched.Max = 6e9
					}
					for k := 0; k < reps; k++ {
						w := *wrs[r.N(len(wrs))]
						switch x := r.N(100); {
						case x < 30:
							w = WSpec{Kind: "rec", Sink: SinkSpec{Yield: r.N(3)}}
							switch r.N(4) {
							case 0:
								w.Sink.Err = anySinkErr(r)
							case 1:
								w.Sink.Panic, w.Sink.PanicV = true, Pick(r, panicKinds...)
							}
						case x < 34:
							w = WSpec{Kind: "std", Opts: []IOpt{{K: "enc", S: Pick(r, "panic"+Pick(r, panicKinds...), "panic", "no")}}}
							if r.P(30) {
								w.Opts = []IOpt{{K: "shape", S: "panic" + Pick(r, panicKinds...), I: []int{1 + r.N(100)}}}
							}
							if r.P(30) {
								w = *onPath(&w, "e.png")
							}
						case x < 36:
							w = WSpec{Kind: "nil"}
						case w.Kind == "file":
							if r.P(40) {
								w.Disk = []DFault{{Op: "write", Nth: 1 + r.N(300), Err: "ENOSPC"}}
							}
						case x < 60:
							w = *onPath(&w, "o.png")
							if r.P(50) {
								w.Disk = []DFault{genDiskFault(r)}
							}
						case x < 68:
							w.Seek, w.Path = true, "h.png"
						default:
							if r.P(60) {
								w.Sink = genSinkFault(r)
								w.Sink.Panic, w.Sink.PanicV = r.P(35), Pick(r, panicKinds...)
							}
						}
						if r.P(30) && w.Kind != "nil" && w.Kind != "file" && w.Path == "" {
							w.Sink.CloseErr = anyCloseErr(r)
						}
						ops = append(ops, saveOp(r.N(2), k, callBack(r, &w, reqs, wrs, false, false)))
						if w.Path != "" && (w.Kind == "stdfile" || (w.Kind == "std" && w.Seek)) && len(w.Disk) == 0 && r.P(50) {
							ops = append(ops, &Op{K: "close", W: k})
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				ownPaths(run)
				runs = append(runs, run)
			}
			return runs
		},
		Check: checkClose,
		Rule:  "a case is one simulated run in which clients save through recording writers, sinks, files and handles that refuse bytes, refuse to close or panic at seeded places; non-trivial if a fault fired or the run was preempted",
		Real:  realOut4, Stub: stubSink,
	})

	register(&Prop{
		ID:      "C09",
		Batches: tiers(800, 22000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			reqs := []*Req{genGood(r, 3), genGood(r, 2)}
			marathon := batch%60 == 20
			if marathon {
				reqs = []*Req{genGood(r, 1), genGood(r, 2)}
			}
			var wrs []*WSpec
			for i := 0; i < 3; i++ {
				w := genWr(r, 9)
				for w.Kind == "file" {
					w = genWr(r, 9)
				}
				if marathon {
					w = lightWr(r)
				}
				wrs = append(wrs, w)
			}
			// options made once and shared
			var share []*WSpec
			for i := 0; i < 2; i++ {
				share = append(share, &WSpec{Kind: "std", Opts: noShape(genImgOpts(r, 8)), Share: i + 1})
			}
			base := &Run{Tag: "first", Sched: seqSched(r), Clients: [][]*Op{nil}}
			for i, q := range reqs {
				base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
				for j, w := range append(append([]*WSpec(nil), wrs...), share...) {
					c := *w
					c.Share = 0
					base.Clients[0] = append(base.Clients[0], saveOp(i, j, &c))
				}
			}
			runs := []*Run{}
			for n := 0; n < 4; n++ {
				if marathon && n == 1 {
					break
				}
				run := &Run{Tag: fmt.Sprint("r", n), Sched: genSched(r)}
				for i, q := range reqs {
					run.Setup = append(run.Setup, newRead(i, q)...)
				}
				for _, w := range share {
					run.Setup = append(run.Setup, &Op{K: "mkopts", N: w.Share, Wr: w})
				}
				one := r.P(40)
				nc := 1 + r.N(3)
				for c := 0; c < nc; c++ {
					var ops []*Op
					if !one { // objects of its own
						for i, q := range reqs {
							ops = append(ops, &Op{K: "new", Q: i, Req: q})
						}
					}
					// writers which are used again and again
					for j, w := range wrs {
						if r.P(60) {
							c := *w
							c.Sink.NoErrClosed = true
							ops = append(ops, &Op{K: "mkw", W: 10 + j, Wr: &c})
						}
					}
					reps := 2 + r.N(5)
					if marathon {
						reps = 300 / nc
						run.Sched.Max = 6e9
					}
					for k := 0; k < reps; k++ {
						q := r.N(2)
						switch x := r.N(100); {
						case x < 35:
							ops = append(ops, &Op{K: "save", Q: q, W: 10 + r.N(3)})
						case x < 60:
							ops = append(ops, saveOp(q, k, callBack(r, share[r.N(len(share))], reqs, wrs, false, false)))
						case x < 72:
							w := *wrs[r.N(len(wrs))]
							w.Sink = genSinkFault(r)
							w.Sink.Panic, w.Sink.PanicV = r.P(30), Pick(r, panicKinds...)
							ops = append(ops, saveOp(q, k, &w))
						case x < 80:
							ops = append(ops, &Op{K: "mutate", Q: q})
						case x < 88:
							ops = append(ops, &Op{K: "read", Q: q})
						default:
							ops = append(ops, saveOp(q, k, callBack(r, wrs[r.N(len(wrs))], reqs, wrs, false, false)))
						}
					}
					ops = append(ops, &Op{K: "read", Q: 0}, &Op{K: "read", Q: 1})
					run.Clients = append(run.Clients, ops)
				}
				for _, w := range share {
					run.Final = append(run.Final, &Op{K: "chkopts", N: w.Share})
				}
				runs = append(runs, run)
			}
			if r.P(50) {
				return append([]*Run{base}, runs...)
			}
			return append(runs, base)
		},
		Check: func(h *Hist, st *State) []Viol {
			vs := remember(h, st)
			for _, o := range h.Ops {
				if o.Op.K == "read" && o.Done && o.Panic == "" && o.BM != "" {
					if n := h.reqOf(o); n != nil {
						if old := st.Outcome[n.Op.Req.Key()]; old != "" && old != "sym:"+o.BM {
							vs = append(vs, viol("symbol", "after saving, the symbol is %s; before it was %s: %s", short("sym:"+o.BM), short(old), n.where()))
						}
					}
				}
				if o.Touched != "" {
					vs = append(vs, viol("input", "%s", o.Touched))
				}
			}
			for _, t := range h.touchedStops() {
				vs = append(vs, viol("input", "%s", t))
			}
			for _, r := range h.saves() {
				if !r.Done || r.Panic != "" || r.Failed {
					if r.Done && !faulty(r) {
						vs = append(vs, viol("result", "fails (%s%s) although nothing refused its bytes: %s", r.Panic, r.Err, r.where()))
					}
					continue
				}
				vs = append(vs, checkBytes(h, st, r, true)...)
			}
			return vs
		},
		Rule: "a case is one simulated run in which clients save the same symbols again and again, with fresh and reused writers and shared options, in between failing saves and writers that scribble over what they get; all outputs of equal saves must be equal; non-trivial if a fault fired or the run was preempted",
		Real: realOut4, Stub: stubSink,
	})

	register(&Prop{
		ID:      "C10",
		Batches: tiers(1200, 24000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			reqs := []*Req{genGood(r, 3), genGood(r, 2)}
			var wrs []*WSpec
			for i := 0; i < 4; i++ {
				w := genWr(r, 9)
				for w.Kind == "file" {
					w = simpleWr(r)
				}
				wrs = append(wrs, w)
			}
			large := batch%29 == 13
			if large {
				var q *Req
				q, wrs = genLarge(r)
				wrs = wrs[1:]
				reqs = []*Req{q, reqs[1]}
			}
			base := &Run{Tag: "sinks", Sched: seqSched(r), Clients: [][]*Op{nil}}
			for i, q := range reqs {
				base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
				for j, w := range wrs {
					base.Clients[0] = append(base.Clients[0], saveOp(i, j, w))
				}
			}
			runs := []*Run{base}
			for n := 0; n < 6; n++ {
				if large && n == 3 {
					break
				}
				run := &Run{Tag: fmt.Sprint("r", n), Sched: genSched(r), Dirs: []string{"dir", "sub", "/data", "ro", "locked"}, Files: map[string]*FSpec{
					"keep.txt": {Raw: []byte("keep me")}, "default.jpeg": {Raw: []byte("mine")}, "sub/keep.bin": {Fill: 300}, "/data/x": {Fill: 10},
					"locked/a.png": {Fill: 70}, "mine.png": {Fill: 90}, "ro/old.png": {Fill: 80},
				}, Modes: map[string]int{"mine.png": 0444, "ro": 0555, "locked": 0600}}
				run.Group = r.P(45)
				if r.P(20) {
					run.Sched.KillAt = uint64(1000 + r.N(3000000))
					run.Group = true
				}
				np := 0
				path := func() string {
					np++
					p := fmt.Sprintf("%s%d%s", Pick(r, "", "sub/", "/data/", "./", "dir/../"), np, Pick(r, ".png", ".jpg", "", ".x y", "-日本.jpeg"))
					if r.P(20) {
						p = oddPath(r, run, np)
					}
					if r.P(50) { // something longer or shorter is there already
						run.Files[p] = &FSpec{Fill: Pick(r, 1, 50, 5000, 200000)}
						if r.P(20) {
							run.Files[p] = &FSpec{Raw: []byte{}}
						}
					}
					return p
				}
				clients, reps := 1+r.N(3), 0
				if n == 1 && batch%60 == 20 { // very many files of one process
					run.Tag, run.Sched = "marathon", seqSched(r)
					run.Sched.Max = 6e9
					run.Group = false
					clients, reps = 1, 80+r.N(80)
				}
				for c := 0; c < clients; c++ {
					var ops []*Op
					for i, q := range reqs {
						ops = append(ops, newRead(i, q)...)
					}
					for k := 0; k < reps || k < 1+r.N(4); k++ {
						w := onPath(wrs[r.N(len(wrs))], path())
						switch x := r.N(100); {
						case x < 25:
							w.Disk = []DFault{genDiskFault(r)}
						case x < 35:
							w.Path = Pick(r, "missing/a.png", "dir", "keep.txt/a.png", "sub/no/b.png", "default.jpeg/", "new/", "keep.txt/../a.png",
								"missing/../a.jpg", "ro/new.png", "locked/a.png", "locked/new.jpg", "mine.png", "sub/"+strings.Repeat("n", 300)+".png", "nul\x00.png")
						case x < 50 && run.Group && run.Sched.KillAt == 0:
							d := genDiskFault(r)
							d.Kill = true
							w.Disk = []DFault{d}
						}
						ops = append(ops, saveOp(r.N(2), k, w))
						if r.P(15) { // over itself
							w2 := onPath(wrs[r.N(len(wrs))], w.Path)
							ops = append(ops, saveOp(r.N(2), k, w2))
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				// whatever became of the files, saving again after the faults ends well
				run.Final = append(run.Final, &Op{K: "faults"})
				for i, q := range reqs {
					run.Final = append(run.Final, newRead(i, q)...)
				}
				seen := map[string]bool{}
				for _, ops := range run.Clients {
					for _, op := range ops {
						if op.Wr != nil && op.Wr.Path != "" && !seen[op.Wr.Path] && r.P(60) {
							seen[op.Wr.Path] = true
							run.Final = append(run.Final, saveOp(r.N(2), 90, onPath(wrs[r.N(len(wrs))], op.Wr.Path)))
						}
					}
				}
				runs = append(runs, run)
			}
			return runs
		},
		Check: checkPaths,
		Rule:  "a case is one simulated run in which clients save to paths of a simulated disk, over old files, through open, write and close errors, a full disk and kills of the process at seeded places, then save again after the faults; non-trivial if a fault fired or the run was preempted",
		Real:  realOut4, Stub: []string{"the file system (simulated world with faults and process kill)", "byte sinks", "goroutine scheduling, sync and channels (simulator)"},
	})
}

func noShape(o []IOpt) []IOpt {
	var out []IOpt
	for _, x := range o {
		if x.K != "shape" {
			out = append(out, x)
		}
	}
	return out
}

// remember notes the symbols of a run for later ones.
func remember(h *Hist, st *State) []Viol {
	for _, oc := range h.outcomes() {
		if oc.bm != nil {
			if _, ok := st.Outcome[oc.req.Key()]; !ok {
				st.Outcome[oc.req.Key()] = oc.out
			}
		}
	}
	return nil
}

// own tells whether a panic is one of the harness's.
func own(p string) bool {
	for _, w := range []string{"sink panic", "writer panic", "encoder panic", "shape panic"} {
		if strings.HasPrefix(p, w) {
			return true
		}
	}
	return false
}

// faulty tells whether something refused to take the bytes of a save.
func faulty(r *Res) bool {
	sp := r.Spec
	switch {
	case r.Sink != nil && r.Sink.Failed > r.Failed0:
		return true
	case sp.Kind == "rec" && (sp.Sink.Err != "" || sp.Sink.Panic):
		return true
	case sp.Kind == "file" && sp.Nil:
		return true
	case r.RefOpen > 0 || r.RefWrite > 0:
		return true
	}
	for _, o := range sp.Opts {
		if (o.K == "enc" || o.K == "shape") && o.S != "" {
			return true
		}
	}
	return false
}

// badPath tells whether a path can never be opened for writing.
func (h *Hist) badPath(p string) bool { return p != "" && !h.World0.Openable(p) }

// checkResult judges the result of a save against what became of its bytes.
func checkResult(h *Hist, st *State, r *Res) []Viol {
	sp := r.Spec
	if !r.Done {
		if h.Res.Failure != nil && !h.Res.Killed && h.Res.Failure.Kind != "crash" {
			return []Viol{viol("result", "%s during %s", h.failure(), r.where())}
		}
		return nil
	}
	if r.Panic != "" {
		if own(r.Panic) {
			return nil
		}
		return []Viol{viol("result", "panic %q: %s", r.Panic, r.where())}
	}
	bad := faulty(r)
	if sp.Path != "" && (sp.Kind == "stdfile" || sp.Kind == "compfile") && h.badPath(sp.Path) {
		bad = true
	}
	if bad {
		st.Count["refused saves"]++
		if !r.Failed {
			why := "its bytes were refused"
			if r.Sink != nil {
				why = fmt.Sprintf("the sink refused %d writes (%d bytes arrived)", r.Sink.Failed-r.Failed0, r.BufTo-r.BufFrom)
			}
			return []Viol{viol("silent", "success is reported although %s: %s", why, r.where())}
		}
		if sp.Kind == "rec" && sp.Sink.Err != "" && !strings.Contains(r.Err, errText(sp.Sink.Err)) {
			return []Viol{viol("lost", "the writer failed with %q, Save with %q: %s", errText(sp.Sink.Err), r.Err, r.where())}
		}
		return nil
	}
	if r.Failed {
		return []Viol{viol("spurious", "failure (%s) although every byte was taken: %s", r.Err, r.where())}
	}
	st.Count["successful saves"]++
	return checkBytes(h, st, r, true)
}

func checkClose(h *Hist, st *State) []Viol {
	vs := remember(h, st)
	logs := strings.Join(h.W.Logs(), "\n") + strings.Join(h.W.Outs(), "\n")
	for _, r := range h.saves() {
		sp := r.Spec
		if !r.Done {
			if h.Res.Failure != nil && !h.Res.Killed {
				vs = append(vs, viol("hang", "%s during %s", h.failure(), r.where()))
			}
			continue
		}
		how := "success"
		if r.Failed {
			how = "failure"
		}
		if r.Panic != "" {
			how = "panic"
		}
		if !r.MkFailed {
			st.Count["closed after "+how]++
		}
		// the bytes decide about the result, closing does not
		if len(sp.Sink.Err) == 0 || sp.Kind != "rec" {
			vs = append(vs, checkResult(h, st, r)...)
		}
		panics := r.Sink != nil && r.Sink.Panics > r.Panics0 || sp.Kind == "rec" && sp.Sink.Panic
		for _, o := range sp.Opts {
			panics = panics || o.K == "enc" && strings.HasPrefix(o.S, "panic") || o.K == "shape" && strings.HasPrefix(o.S, "panic")
		}
		if panics && !own(r.Panic) {
			vs = append(vs, viol("swallowed", "the panic of a writer does not reach the caller (%q, %v): %s", r.Panic, r.Err, r.where()))
		}
		if s := r.Sink; s != nil {
			if n := s.Closes - r.Closes0; n != 1 {
				vs = append(vs, viol("closes", "closed %d times after %s: %s", n, how, r.where()))
			}
			if s.Late > 0 {
				vs = append(vs, viol("order", "%d writes after Close: %s", s.Late, r.where()))
			} else if len(s.Order) > 0 && len(s.Order) < 64 && s.Order[len(s.Order)-1] != "C" {
				vs = append(vs, viol("order", "Close is not the last call (%v): %s", s.Order, r.where()))
			}
			if sp.Sink.CloseErr != "" && s.Closes > r.Closes0 && !strings.Contains(logs, errText(sp.Sink.CloseErr)) {
				vs = append(vs, viol("unreported", "the error of Close is reported nowhere: %s", r.where()))
			}
		}
		if rec := r.Rec; rec != nil {
			if strings.Join(rec.Order, "") != "WC" {
				vs = append(vs, viol("closes", "the writer saw %v after %s, want one Write and one Close: %s", rec.Order, how, r.where()))
			}
			if sp.Sink.CloseErr != "" && rec.Closes > 0 && !strings.Contains(logs, errText(sp.Sink.CloseErr)) {
				vs = append(vs, viol("unreported", "the error of Close is reported nowhere: %s", r.where()))
			}
		}
		if f := r.Handle; f != nil {
			switch {
			case sp.Kind == "file" && f.Closes != 0:
				vs = append(vs, viol("handle", "the file writer closed the caller's file: %s", r.where()))
			case sp.Kind != "file" && f.Closes == 0:
				vs = append(vs, viol("closes", "the handle is still open after %s: %s", how, r.where()))
			}
		}
		if (sp.Kind == "stdfile" || sp.Kind == "compfile") && sp.Path != "" {
			for _, f := range h.W.Open {
				if h.W.Abs(f.Name()) == h.W.Abs(sp.Path) && !f.IsClosed() {
					vs = append(vs, viol("closes", "%s is still open after %s: %s", sp.Path, how, r.where()))
				}
			}
		}
	}
	for _, r := range h.Ops {
		if r.Op.K == "close" && r.Done && r.Spec != nil && (r.Failed || r.Panic != "") && len(r.Spec.Disk) == 0 {
			vs = append(vs, viol("again", "closing the writer's file again fails (%s%s): %s", r.Err, r.Panic, r.Spec))
		}
	}
	return vs
}

func checkPaths(h *Hist, st *State) []Viol {
	vs := remember(h, st)
	used := map[string]bool{}
	for _, r := range h.Ops {
		if r.Op.Wr != nil && r.Op.Wr.Path != "" && !h.badPath(r.Op.Wr.Path) {
			used[h.W.Abs(r.Op.Wr.Path)] = true // even if there was nothing to save
		}
	}
	last := map[string]*Res{}
	for _, r := range h.saves() {
		sp := r.Spec
		if sp.Kind != "stdfile" && sp.Kind != "compfile" {
			if r.Done && r.Panic == "" && !r.Failed {
				vs = append(vs, checkBytes(h, st, r, true)...)
			}
			continue
		}
		a := h.W.Abs(sp.Path)
		if !r.Done {
			if h.Res.Failure != nil && h.Res.Failure.Kind != "crash" {
				vs = append(vs, viol("result", "%s during %s", h.failure(), r.where()))
			}
			continue
		}
		last[a] = r
		vs = append(vs, checkResult(h, st, r)...)
		if r.RefOpen > 0 && r.RefWrite == 0 && len(h.Run.Clients) == 1 && r.Client == 0 && r.Idx == firstUse(h, a) {
			// nothing was written, so nothing is lost
			old, had := h.Before[a]
			if had != r.HasFile || (had && old != string(r.File)) {
				vs = append(vs, viol("lost", "the file cannot be opened, yet its content changed: %s", r.where()))
			}
		}
	}
	after := h.W.Snapshot()
	var names []string
	for p := range after {
		names = append(names, p)
	}
	for p := range h.Before {
		if _, ok := after[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		if used[p] {
			continue
		}
		b, was := h.Before[p]
		a, is := after[p]
		switch {
		case was && !is:
			vs = append(vs, viol("touched", "%s is gone; no save named it", p))
		case !was && is:
			vs = append(vs, viol("touched", "%s appeared (%d bytes); no save named it", p, len(a)))
		case a != b:
			vs = append(vs, viol("touched", "%s changed; no save named it", p))
		}
	}
	// what a save reported as done stays there
	var saved []string
	for p := range last {
		saved = append(saved, p)
	}
	sort.Strings(saved)
	for _, p := range saved {
		r := last[p]
		if r.Panic == "" && !r.Failed && lastUse(h, p) == r {
			if after[p] != string(r.File) {
				vs = append(vs, viol("touched", "%s changed after it was saved: %s", p, r.where()))
			}
		}
	}
	if h.Res.Failure == nil && !h.Run.Group && h.Run.Sched.KillAt == 0 {
		if o := h.W.OpenHandles(); len(o) > 0 {
			vs = append(vs, viol("leak", "still open at the end: %v", o))
		}
	}
	return vs
}

func firstUse(h *Hist, a string) int {
	for _, r := range h.Ops {
		if r.Op.Wr != nil && r.Op.Wr.Path != "" && h.W.Abs(r.Op.Wr.Path) == a {
			return r.Idx
		}
	}
	return -1
}

func lastUse(h *Hist, a string) *Res {
	var l *Res
	for _, r := range h.Ops {
		if r.Op.Wr != nil && r.Op.Wr.Path != "" && h.W.Abs(r.Op.Wr.Path) == a {
			l = r
		}
	}
	return l
}

// oddPath is a path whose name could be taken for another one, of which there
// often is a file too.
func oddPath(r *RNG, run *Run, n int) string {
	name, other := fmt.Sprintf("o%d.png", n), ""
	switch r.N(10) {
	case 0:
		name, other = name+" ", name
	case 1:
		name, other = " "+name, name
	case 2:
		name, other = strings.ToUpper(name), name
	case 3:
		name, other = "e\u0301"+name, "\u00e9"+name
	case 4:
		name, other = "%20"+name, " "+name
	case 5:
		name, other = "$HOME"+name, name
	case 6:
		name, other = "*"+name, "a"+name
	case 7:
		name, other = name+".", name
	case 8:
		name, other = "sub\\"+name, "sub/"+name
	default:
		name, other = Pick(r, "~", "-", "a:", "#", "?", "'", "\t", "\n", "\xff", "...")+name, name
	}
	if r.P(70) {
		run.Files[other] = &FSpec{Fill: Pick(r, 1, 50, 5000)}
	}
	return name
}
