package core

import (
	"fmt"

	"verifharness/refqr"
)

var realLib = []string{"package qrcode (all of it)", "github.com/yeqown/reedsolomon", "golang.org/x/text"}
var stubOS = []string{"os, log, time, math/rand (simulated world)", "goroutine scheduling, sync and channels (simulator)"}

func init() {
	register(&Prop{
		ID:      "C01",
		Batches: tiers(1800, 50000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			if batch%60 == 20 {
				return []*Run{genMarathon(r, 10)}
			}
			maxV := 3
			if batch%9 == 4 {
				maxV = 10
			}
			if batch%31 == 7 {
				maxV = 40
			}
			var reqs []*Req
			for i := 0; i < 2+r.N(3); i++ {
				reqs = append(reqs, genReq(r, maxV))
			}
			if batch%2 == 0 {
				reqs = append(reqs, genTie(r))
			}
			// relatives: the same text otherwise, another text otherwise the same
			for i := 0; i < 1+r.N(3); i++ {
				reqs = append(reqs, genSibling(r, reqs[r.N(len(reqs))], maxV))
			}
			if r.P(20) {
				reqs = append(reqs, genBadReq(r))
			}
			base := &Run{Tag: "base", Sched: seqSched(r), Clients: [][]*Op{nil}}
			for i, q := range reqs {
				base.Clients[0] = append(base.Clients[0], newRead(i, q)...)
			}
			runs := []*Run{}
			n := 7
			if maxV > 10 {
				n = 3
			}
			for i := 0; i < n; i++ {
				run := &Run{Tag: fmt.Sprint("s", i), Sched: genSched(r), CPUs: Pick(r, 1, 2, 3, 4, 8, 16, 64)}
				nc := 1 + r.N(3)
				if r.P(10) {
					nc = 6
				}
				for c := 0; c < nc; c++ {
					var ops []*Op
					for k := 0; k < 1+r.N(3); k++ {
						q := *reqs[r.N(len(reqs))]
						q.Kind = genKind(r)
						if len(q.Opts) > 0 && r.P(40) {
							// options which have no effect, or the last of which wins
							o := append([]EOpt(nil), q.Opts...)
							switch r.N(4) {
							case 0:
								o = append(o, EOpt{"ver", Pick(r, 0, -1, 41, 1000)})
							case 1:
								o = append(o, EOpt{"ec", Pick(r, 0, 5, -3)})
							case 2:
								o = append(o, o...)
							default:
								p := r.Perm(len(o))
								for i, j := range p {
									o[i] = q.Opts[j]
								}
							}
							q2 := q
							q2.Opts = o
							if q2.Key() == q.Key() {
								q = q2
							}
						}
						ops = append(ops, newRead(k, &q)...)
						if r.P(15) {
							ops = append(ops, &Op{K: "mutate", Q: k})
						}
						if r.P(15) {
							ops = append(ops, &Op{K: "read", Q: k})
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				runs = append(runs, run)
			}
			if r.P(30) {
				runs = append(runs, base)
			} else {
				runs = append([]*Run{base}, runs...)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol {
			vs := sameOutcomes(h, st, "differs")
			// every later look at the same symbol object shows the same symbol
			for _, o := range h.Ops {
				if o.Op.K == "read" && o.Done && o.Panic == "" && o.BM != "" {
					if n := h.reqOf(o); n != nil {
						k := n.Op.Req.Key()
						if old := st.Outcome[k]; old != "" && old != "sym:"+o.BM {
							vs = append(vs, viol("differs", "a later look shows %s, before %s: %s", short("sym:"+o.BM), short(old), n.where()))
						}
					}
				}
			}
			return vs
		},
		Rule: "a case is one simulated run: 1-6 clients issue requests of a common pool under a seeded schedule, and every equal request of the process must give the same outcome; non-trivial if it was preempted at least once; distinct by the hash of its switch sequence",
		Real: realLib, Stub: stubOS,
	})

	register(&Prop{
		ID: "C02",
		Batches: func(t string) int {
			if t == "thorough" {
				return 320 + 9000
			}
			return 160 + 600
		},
		Gen: func(r *RNG, batch int, tier string) []*Run {
			must := 160
			if tier == "thorough" {
				must = 320
			}
			if batch < must {
				return genEdges(r, (batch*7)%160)
			}
			var runs []*Run
			if batch%60 == 20 {
				return append(runs, genMarathon(r, 10))
			}
			maxV := 6
			if batch%5 == 0 {
				maxV = 20
			}
			if batch%17 == 0 {
				maxV = 40
			}
			for i := 0; i < 6; i++ {
				run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r)}
				for c := 0; c < 1+r.N(3); c++ {
					var ops []*Op
					for k := 0; k < 1+r.N(4); k++ {
						q := genReq(r, maxV)
						if r.P(15) {
							q = genBadReq(r)
						}
						ops = append(ops, newRead(k, q)...)
						if r.P(25) {
							ops = append(ops, newRead(k, genTwin(r, q))...)
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				runs = append(runs, run)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol { return checkSymbols(h, st, true) },
		Rule:  "a case is one simulated run; batches 0-159 take every version and level once, with texts at and around the capacity of each mode, the rest are random requests; non-trivial if a symbol was delivered and read back; distinct by run hash",
		Real:  realLib, Stub: stubOS,
	})

	register(&Prop{
		ID: "C03",
		Batches: func(t string) int {
			if t == "thorough" {
				return 160 * 100
			}
			return 160 * 6
		},
		Gen: func(r *RNG, batch int, tier string) []*Run {
			b := batch % 160
			ver, ec := 1+b/4, b%4
			run := &Run{Tag: fmt.Sprintf("v%d-%c", ver, "LMQH"[ec]), Sched: genSched(r), Clients: [][]*Op{nil}, XL: map[string][]uint64{}}
			trials := 12
			if ver > 20 {
				trials = 5
			}
			for k := 0; k < 3; k++ {
				class := Pick(r, "num", "alnum", "kanji", "bin", "url", "utf8")
				ref, api := modeOfClass(class)
				c := refqr.Capacity(ref, ver, ec)
				n := c
				if r.P(40) {
					n = r.N(c + 1)
				}
				q := &Req{Text: genText(r, class, n), Kind: genKind(r), Opts: []EOpt{{"mode", api}, {"ec", ec + 1}, {"ver", ver}}}
				run.Clients[0] = append(run.Clients[0], newRead(k, q)...)
				if k == 0 {
					run.Clients[0] = append(run.Clients[0], newRead(3, genTwin(r, q))...)
				}
			}
			for t := 0; t < trials; t++ {
				run.XL["damage"] = append(run.XL["damage"], r.U()>>12)
			}
			return []*Run{run}
		},
		Check: checkDamage,
		Rule:  "a case is one simulated run of one version and level (all 160 are covered): four symbols (two of them twins), each damaged in many seeded ways up to the correction capacity of every block plus up to three bits in each copy of the format and version information; non-trivial if at least one module was flipped; distinct by run hash and damage seeds",
		Real:  realLib, Stub: append(stubOS, "the scanner: reference reader with error correction", "the medium: module flips"),
	})

	register(&Prop{
		ID:      "C04",
		Batches: tiers(700, 20000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			maxV := 4
			if batch%6 == 1 {
				maxV = 12
			}
			if batch%33 == 5 {
				maxV = 40
			}
			var runs []*Run
			if batch%60 == 20 {
				return append(runs, genMarathon(r, 5))
			}
			n := 7
			if maxV > 12 {
				n = 3
			}
			for i := 0; i < n; i++ {
				run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r)}
				for c := 0; c < 1+r.N(2); c++ {
					var ops []*Op
					for k := 0; k < 2+r.N(4); k++ {
						q := genReq(r, maxV)
						if maxV == 4 && r.P(15) {
							q = genTie(r)
						} else if r.P(20) {
							q = genPattern(r, maxV)
						}
						ops = append(ops, newRead(k, q)...)
					}
					run.Clients = append(run.Clients, ops)
				}
				runs = append(runs, run)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol {
			var vs []Viol
			for _, oc := range h.outcomes() {
				if oc.bm == nil {
					continue
				}
				if m := CheckMask(oc.bm, st); m != "" {
					vs = append(vs, viol("mask", "%s: %s", m, oc.res.where()))
				}
			}
			return vs
		},
		Rule: "a case is one simulated run; the eight masked variants of every delivered symbol are rebuilt and scored by the reference; non-trivial if a symbol was judged; distinct by run hash",
		Real: realLib, Stub: stubOS,
	})

	register(&Prop{
		ID:      "C17",
		Batches: tiers(2000, 60000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			runs := []*Run{genLimit(r, batch*387%640)}
			if batch%60 == 20 {
				return append(runs, genMarathon(r, 60))
			}
			for i := 0; i < 7; i++ {
				run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r)}
				for c := 0; c < 1+r.N(4); c++ {
					var ops []*Op
					for k := 0; k < 1+r.N(5); k++ {
						q := genBadReq(r)
						if r.P(35) {
							q = genReq(r, 4)
						}
						if r.P(15) {
							// any combination of option values at all
							q.New = false
							q.Opts = nil
							for j := 0; j < r.N(6); j++ {
								q.Opts = append(q.Opts, EOpt{Pick(r, "mode", "ec", "ver", "minver"), Pick(r, -1, 0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 33, 40, 41, 64, 1000, -1<<31)})
							}
							if len(q.Text) > 600 {
								q.Text = q.Text[:600]
							}
						}
						ops = append(ops, newRead(k, q)...)
						if r.P(15) {
							ops = append(ops, newRead(k, genTwin(r, q))...)
						}
					}
					run.Clients = append(run.Clients, ops)
				}
				runs = append(runs, run)
			}
			return runs
		},
		Check: func(h *Hist, st *State) []Viol {
			var vs []Viol
			for _, oc := range h.outcomes() {
				w := WantOf(oc.req)
				switch {
				case oc.out == "panic":
					vs = append(vs, viol("panic", "panic %q: %s", oc.res.Panic, oc.res.where()))
				case oc.out == "none":
					vs = append(vs, viol("panic", "%s during %s", h.failure(), oc.res.where()))
				case oc.out == "nil":
					vs = append(vs, viol("nil", "neither a symbol nor an error: %s", oc.res.where()))
				case w.MustFail && oc.out != "err":
					vs = append(vs, viol("accepted", "accepted although %s (%s): %s", w.WhyFail, short(oc.out), oc.res.where()))
				case w.MustFail:
					st.Count["refused"]++
				case oc.bm != nil:
					if m := CheckSymbol(oc.req, oc.bm); m != "" {
						vs = append(vs, viol("disturbed", "an accepted request beside refused ones: %s: %s", m, oc.res.where()))
					}
				case oc.out == "err" && w.MustWork:
					vs = append(vs, viol("disturbed", "a good request beside refused ones is refused (%s): %s", oc.res.Err, oc.res.where()))
				}
			}
			return vs
		},
		Rule: "a case is one simulated run: one run of a batch asks for the longest text of a version, level and mode (all 640 are covered) and for one character more, in the others 1-4 clients mix requests that must be refused (too long, characters outside the mode, unknown modes, absurd option values) with good ones; non-trivial if something was refused; distinct by run hash",
		Real: realLib, Stub: stubOS,
	})
}

// CheckMask judges the mask choice of a symbol.
func CheckMask(bm [][]bool, st *State) string {
	s, err := refqr.Read(bm, false)
	if err != nil || s.Corrected > 0 {
		return ""
	}
	ok, lo, hi := refqr.BestMask(bm, s.Ver, s.EC, s.Mask)
	st.Count["symbols judged"]++
	st.Count[fmt.Sprint("mask ", s.Mask)]++
	n := 0
	for i := range lo {
		if lo[i] == lo[s.Mask] {
			n++
		}
	}
	if n > 1 {
		st.Count["ties"]++
	}
	if !ok[s.Mask] {
		return fmt.Sprintf("mask %d chosen, but the penalties of masks 0-7 are %v (up to %v): symbol v%d-%c", s.Mask, lo, hi, s.Ver, "LMQH"[s.EC])
	}
	return ""
}

// genLimit asks for the longest text of a version, level and mode, and for one
// character more.
func genLimit(r *RNG, i int) *Run {
	ver, ec := 1+i/16, i/4%4
	class := words("num alnum kanji bin")[i%4]
	ref, api := modeOfClass(class)
	c := refqr.Capacity(ref, ver, ec)
	run := &Run{Tag: fmt.Sprintf("limit-v%d-%c-%s", ver, "LMQH"[ec], class), Sched: genSched(r), Clients: [][]*Op{nil}}
	run.Sched.Max = 6e9
	if run.Sched.Policy == "fine" {
		run.Sched.Param = 4096
	}
	add := func(n int, opts ...EOpt) {
		q := &Req{Text: genText(r, class, n), Kind: genKind(r), Opts: append([]EOpt{{"ec", ec + 1}}, opts...)}
		if r.P(50) {
			q.Opts = append(q.Opts, EOpt{"mode", api})
		}
		run.Clients[0] = append(run.Clients[0], newRead(len(run.Clients[0])/2, q)...)
	}
	for _, k := range r.Perm(4) {
		switch k {
		case 0:
			add(c, EOpt{"ver", ver})
		case 3:
			add(c)
		case 1:
			add(c+1, EOpt{"ver", ver})
		case 2:
			if ver == 40 || r.P(30) {
				add(c + 1)
			}
		}
	}
	return run
}

// genEdges covers one version and level with texts at the edges of capacity.
func genEdges(r *RNG, i int) []*Run {
	ver, ec := 1+i/4, i%4
	run := &Run{Tag: fmt.Sprintf("v%d-%c", ver, "LMQH"[ec]), Sched: genSched(r), Clients: [][]*Op{nil}}
	run.Sched.Max = 6e9
	if run.Sched.Policy == "fine" {
		run.Sched.Param = 4096
	}
	k := 0
	add := func(class string, n int, opts ...EOpt) {
		q := &Req{Text: genText(r, class, n), Kind: genKind(r), Opts: append([]EOpt{{"ec", ec + 1}}, opts...)}
		run.Clients[0] = append(run.Clients[0], newRead(k, q)...)
		k++
	}
	for _, class := range []string{"num", "alnum", "kanji", "bin"} {
		ref, api := modeOfClass(class)
		c := refqr.Capacity(ref, ver, ec)
		m := EOpt{"mode", api}
		v := EOpt{"ver", ver}
		add(class, c, m, v)
		add(class, c-1-r.N(min(c, 5)), v)
		add(class, r.N(c+1), m, v)
		add(class, c)
		if ver < 40 || true {
			add(class, c+1, m)
			add(class, c+1, v)
		}
		if r.P(30) {
			add(class, r.N(c+1), EOpt{"minver", ver})
		}
	}
	return []*Run{run}
}

func checkSymbols(h *Hist, st *State, full bool) []Viol {
	var vs []Viol
	for _, oc := range h.outcomes() {
		w := WantOf(oc.req)
		switch {
		case oc.bm != nil:
			st.Count["symbols read"]++
			if w.MustFail {
				// C17 judges refusals; an unreadable symbol is still wrong here
				if m := CheckSymbol(oc.req, oc.bm); m != "" {
					vs = append(vs, viol("symbol", "%s: %s", m, oc.res.where()))
				}
				continue
			}
			if m := CheckSymbol(oc.req, oc.bm); m != "" {
				vs = append(vs, viol("symbol", "%s: %s", m, oc.res.where()))
				continue
			}
			if s, err := refqr.Read(oc.bm, false); err == nil {
				st.Count[fmt.Sprintf("ver %02d", s.Ver)]++
				st.Count[fmt.Sprintf("ec %c", "LMQH"[s.EC])]++
				for _, sg := range s.Segments {
					st.Count[fmt.Sprint("mode ", sg.Mode)]++
				}
				if m := DocumentedMode(oc.req, s); m != "" {
					vs = append(vs, viol("automode", "%s: %s", m, oc.res.where()))
				}
				if oc.res.Dim != refqr.Dim(s.Ver) {
					vs = append(vs, viol("dimension", "Dimension() is %d for a symbol of %d modules: %s", oc.res.Dim, refqr.Dim(s.Ver), oc.res.where()))
				}
			}
		case w.MustWork:
			why := oc.out
			switch oc.out {
			case "err":
				why = "refused: " + oc.res.Err
			case "panic":
				why = "panic: " + oc.res.Panic
			case "none":
				why = h.failure()
			case "ok":
				continue
			}
			vs = append(vs, viol("refused", "a text that fits is not encoded (%s): %s", why, oc.res.where()))
		default:
			st.Count["refusals"]++
		}
	}
	for _, o := range h.Ops {
		if o.Op.K == "read" && o.Done && o.Bad != "" {
			vs = append(vs, viol("views", "%s", o.Bad))
		}
	}
	return vs
}

func checkDamage(h *Hist, st *State) []Viol {
	var vs []Viol
	for i, oc := range h.outcomes() {
		if oc.bm == nil {
			continue
		}
		s0, err := refqr.Read(oc.bm, false)
		if err != nil {
			vs = append(vs, viol("unreadable", "%v even without damage: %s", err, oc.res.where()))
			continue
		}
		w := WantOf(oc.req)
		ec := w.EC // the level asked for decides how much damage must be survived
		for _, seed := range h.Run.XL["damage"] {
			bm, what, n := Damage(oc.bm, s0.Ver, ec, seed+uint64(i)*977)
			st.Count["damaged symbols"]++
			st.Count["modules flipped"] += n
			s, err := refqr.Read(bm, false)
			if err != nil {
				vs = append(vs, viol("unreadable", "%v after %s (seed %d): %s", err, what, seed, oc.res.where()))
				break
			}
			if s.Text != string(oc.req.Text) {
				vs = append(vs, viol("misread", "reads %q after %s (seed %d): %s", clip(s.Text), what, seed, oc.res.where()))
				break
			}
		}
	}
	return vs
}

// Damage flips modules within what the level of a symbol can correct.
func Damage(bm [][]bool, ver, ec int, seed uint64) ([][]bool, string, int) {
	r := NewRNG(seed, 31)
	out := make([][]bool, len(bm))
	for i := range bm {
		out[i] = append([]bool(nil), bm[i]...)
	}
	n := 0
	flip := func(c [2]int) {
		out[c[1]][c[0]] = !out[c[1]][c[0]]
		n++
	}
	blk := refqr.CodewordBlock(ver, ec)
	nb := refqr.NumBlocks(ver, ec)
	capa := refqr.Correctable(ver, ec)
	left := make([]int, nb)
	kind := r.N(4)
	for i := range left {
		switch kind {
		case 0:
			left[i] = capa
		case 1:
			left[i] = r.N(capa + 1)
		case 2: // one block only
			left[i] = 0
		case 3:
			left[i] = capa
		}
	}
	if kind == 2 {
		left[r.N(nb)] = capa
	}
	order := r.Perm(len(blk))
	if kind == 3 { // a contiguous burst
		s := r.N(len(blk))
		for i := range order {
			order[i] = (s + i) % len(blk)
		}
	}
	style := r.N(3)
	words := 0
	for _, i := range order {
		if left[blk[i]] == 0 {
			continue
		}
		left[blk[i]]--
		words++
		x := 1 + r.N(255)
		switch style {
		case 0:
			x = 1 << r.N(8)
		case 1:
			x = 255
		}
		for b, c := range refqr.CodewordModules(ver, i) {
			if x>>b&1 == 1 {
				flip(c)
			}
		}
	}
	bits := 0
	// up to three bits of each copy, or the whole of one copy
	info := func(modules func(ver, c int) [][2]int, dist func(int) int) {
		lost := -1
		if r.P(50) {
			lost = r.N(2)
		}
		for c := 0; c < 2; c++ {
			m := modules(ver, c)
			p := r.Perm(len(m))
			if c != lost {
				for _, j := range p[:r.N(4)] {
					flip(m[j])
					bits++
				}
				continue
			}
			for k := 0; k < 1000; k++ {
				got := 0
				for i, q := range m {
					if r.P(50) {
						flip(q)
						bits++
					}
					if out[q[1]][q[0]] {
						got |= 1 << i
					}
				}
				if dist(got) > 3 {
					break
				}
			}
		}
	}
	if r.P(70) {
		info(refqr.FormatModules, refqr.FormatDistance)
		if ver >= 7 {
			info(refqr.VersionModules, refqr.VersionDistance)
		}
	}
	return out, fmt.Sprintf("damage to %d codewords (at most %d per block of %d) and %d format/version bits", words, capa, nb, bits), n
}
