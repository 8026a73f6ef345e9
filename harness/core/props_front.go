package core

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"image"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verifharness/refqr"
	"verifsim/simtermbox"
)

func init() {
	register(&Prop{
		ID:      "C15",
		Single:  true,
		Batches: tiers(2400, 60000),
		Gen:     genCLI,
		Check:   checkCLI,
		Rule:    "a case is one simulated run of the command, a process of its own, with seeded arguments, old output files, terminal and disk faults and kills; non-trivial if a fault fired, the arguments are bad or the run was preempted",
		Real:    []string{"cmd/qrcode", "package qrcode", "writer/standard", "writer/terminal", "urfave/cli"},
		Stub:    []string{"the file system, standard streams, process exit (simulated world with faults and kills)", "termbox", "goroutine scheduling, sync and channels (simulator)"},
		NonTrivial: func(h *Hist) bool {
			if len(h.W.Fired) > 0 || h.Res.Preempts > 0 || h.Res.Killed {
				return true
			}
			for _, r := range h.Ops {
				if r.Op.K == "cli" && r.Exit != 0 {
					return true
				}
			}
			return false
		},
	})

	register(&Prop{
		ID:      "C16",
		Batches: tiers(900, 25000),
		Gen: func(r *RNG, batch int, tier string) []*Run {
			var runs []*Run
			for i := 0; i < 3; i++ {
				run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r), Setup: []*Op{{K: "jsmain"}}}
				var ops []*Op
				calls := 4 + r.N(9)
				if i == 1 && batch%60 == 20 { // a page that is open for long
					run.Tag, run.Sched = "marathon", seqSched(r)
					run.Sched.Max = 6e9
					calls = 120 + r.N(120)
				}
				for k := 0; k < calls; k++ {
					op := &Op{K: "js", JS: genJSArgs(r)}
					if q := jsReq(op.JS); q != nil && WantOf(q).MustWork {
						if r.P(70) {
							ops = append(ops, newRead(k, q)...)
							ops = append(ops, op)
						} else {
							ops = append(ops, op)
							ops = append(ops, newRead(k, q)...)
						}
					} else {
						ops = append(ops, op)
					}
				}
				if r.P(30) { // the same call again, after everything else
					for _, o := range ops {
						if o.K == "js" {
							ops = append(ops, &Op{K: "js", JS: o.JS})
							break
						}
					}
				}
				run.Clients = append(run.Clients, ops)
				if r.P(20) {
					run.Env = map[string]string{"QRCODE_DEBUG": "1"}
				}
				runs = append(runs, run)
			}
			return runs
		},
		Check: checkJS,
		Rule:  "a case is one simulated run of the WebAssembly program and a history of calls of its JavaScript function with good, bad, partial, hostile (throwing getters, symbols, wrong types) arguments; non-trivial if a call failed or the run was preempted",
		Real:  []string{"cmd/wasm", "package qrcode", "writer/standard", "image/png, image/jpeg"},
		Stub:  []string{"syscall/js (a model of JavaScript values, including throwing getters)", "goroutine scheduling, sync and channels (simulator)"},
		NonTrivial: func(h *Hist) bool {
			if h.Res.Preempts > 0 {
				return true
			}
			for _, r := range h.Ops {
				if r.JS != nil && !r.JS.Success {
					return true
				}
			}
			return false
		},
	})
}

// cliWant is what a command line means.
type cliWant struct {
	weird    bool // not judged
	bad      bool // must be refused
	help     bool
	text     string
	terminal bool
	output   string
	block    int
	borders  [4]int
	circle   bool
	transp   bool
	halftone string
}

// parseCLI reads a command line by the documented flags.
func parseCLI(args []string) *cliWant {
	w := &cliWant{output: "qrcode.jpg", block: 5}
	seen := map[string]bool{}
	borders := "0,0,0,0"
	i := 0
	for ; i < len(args); i++ {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		if a == "--" {
			i++
			break
		}
		name := strings.TrimPrefix(a[1:], "-")
		if name == "" || name[0] == '-' || name[0] == '=' {
			w.bad = true
			return w
		}
		name, val, has := strings.Cut(name, "=")
		switch name {
		case "o":
			name = "output"
		case "s":
			name = "block"
		case "b":
			name = "borders"
		case "h":
			name = "help"
		case "v":
			name = "version"
		}
		if seen[name] {
			w.weird = true
		}
		seen[name] = true
		switch name {
		case "terminal", "circle", "transparent", "help", "version":
			b := true
			if has {
				v, err := strconv.ParseBool(val)
				if err != nil {
					w.bad = true
					return w
				}
				b = v
			}
			switch name {
			case "terminal":
				w.terminal = b
			case "circle":
				w.circle = b
			case "transparent":
				w.transp = b
			default:
				w.help = w.help || b
			}
		case "output", "block", "borders", "halftone":
			if !has {
				i++
				if i >= len(args) {
					w.bad = true
					return w
				}
				val = args[i]
			}
			switch name {
			case "output":
				w.output = val
			case "borders":
				borders = val
			case "halftone":
				w.halftone = val
			case "block":
				n, err := strconv.ParseUint(val, 0, 63)
				if err != nil {
					w.bad = true
					return w
				}
				w.block = int(n)
			}
		default:
			w.bad = true
			return w
		}
	}
	if i < len(args) {
		w.text = args[i]
	}
	if w.text == "help" || w.text == "h" {
		w.help = true
	}
	if w.help {
		return w
	}
	p := strings.Split(borders, ",")
	if len(p) != 4 {
		w.bad = true
		return w
	}
	for k, s := range p {
		v, err := strconv.ParseUint(s, 10, 8)
		if err != nil {
			w.bad = true
			return w
		}
		w.borders[k] = int(v)
	}
	if w.block < 0 || w.block > 255 {
		w.bad = true
	}
	if w.output == "" {
		w.weird = true
	}
	return w
}

func genCLI(r *RNG, batch int, tier string) []*Run {
	var runs []*Run
	for i := 0; i < 5; i++ {
		run := &Run{Tag: fmt.Sprint("r", i), Sched: genSched(r), CPUs: Pick(r, 1, 2, 4), Dirs: []string{"dir", "ro", "locked"}, Files: map[string]*FSpec{"keep.txt": {Raw: []byte("keep")}}}
		maxV := 4
		if r.P(4) {
			maxV = 25
		}
		var text []byte
		for j := 0; j < 50; j++ {
			q := genGood(r, maxV)
			q = &Req{Text: q.Text, New: true}
			if w := WantOf(q); w.MustWork && bytes.IndexByte(q.Text, 0) < 0 {
				text = q.Text
				break
			}
		}
		if r.P(10) {
			text = genText(r, Pick(r, "num", "alnum", "ascii", "kanji"), 8000)
		}
		var args []string
		terminal := r.P(15)
		flag := func(names, v string) {
			n := words(names)
			f := n[r.N(len(n))]
			if r.P(50) {
				args = append(args, f+"="+v)
			} else {
				args = append(args, f, v)
			}
		}
		out, bad := "qrcode.jpg", false
		if r.P(75) {
			out = Pick(r, "out.png", "out.png", "out.jpg", "x.jpeg", "noext", "dir/a.png", "a b.png", "dir/../q.png", "日本.png", "up.PNG")
			if r.P(12) {
				out = oddPath(r, run, 1)
			}
			if r.P(8) {
				out = Pick(r, "missing/x.png", "dir", "keep.txt/x.png", "keep.txt/", "new/", "missing/../x.jpg", "ro/x.png", "locked/x.png", "mine.png", strings.Repeat("n", 300)+".png")
				bad = true
				run.Files["locked/x.png"], run.Files["mine.png"] = &FSpec{Fill: 70}, &FSpec{Fill: 80}
				run.Modes = map[string]int{"ro": 0555, "locked": 0600, "mine.png": 0444}
			}
			flag("--output -o -output", out)
		}
		block := 5
		if r.P(60) {
			block = Pick(r, 1, 2, 4, 6, 10, 12, 20, 0, r.N(30))
			if maxV == 4 && r.P(3) {
				block = Pick(r, 63, 64, 100, 127, 128)
			}
			v := fmt.Sprint(block)
			switch {
			case r.P(4):
				v = Pick(r, "-1", "x", "", "1.5", "99999999999999999999")
			case r.P(4):
				v = Pick(r, "256", "300", "261", "512", "65541", "4294967301", "0x0c")
			}
			flag("--block -s", v)
		}
		if r.P(45) {
			side := func() int {
				if r.P(6) {
					return Pick(r, 64, 127, 128, 129, 200, 254, 255)
				}
				return r.N(40)
			}
			v := fmt.Sprintf("%d,%d,%d,%d", side(), side(), side(), side())
			if r.P(15) {
				v = Pick(r, "1,2,3", "1,2,3,4,5", "a,b,c,d", "", "1,2,3,256", "-1,0,0,0", "1, 2,3,4", "1.0,1,1,1", "+1,1,1,1", "0x10,1,1,1", "1,1,1,300", "65536,0,0,0", ",,,", "1,2,3,", "007,0,08,0")
			}
			flag("--borders -b", v)
		}
		if r.P(25) {
			args = append(args, "--circle")
		}
		if r.P(20) {
			args = append(args, "--transparent")
		}
		if r.P(22) {
			p := "half.png"
			f, _ := genPicFile(r, true)
			if !r.P(15) {
				run.Files[p] = f
			}
			if r.P(15) {
				run.Faults = append(run.Faults, fault("open", p, 0, 0, Pick(r, "EACCES", "EMFILE"), 0))
			} else if n := len(f.Bytes()); r.P(15) && n > 20 && f.Trunc == 0 && f.Flip == nil {
				run.Faults = append(run.Faults, fault("read", p, 0, int64(r.N(n-16)), "EIO", 0))
			}
			flag("--halftone", p)
		}
		if terminal {
			args = append(args, Pick(r, "--terminal", "--terminal=true"))
		}
		if r.P(4) {
			args = append(args, Pick(r, "--nonsense", "-x", "--circle=maybe", "--output"))
		}
		if r.P(2) {
			args = append(args, Pick(r, "--help", "-h", "--version"))
		}
		if r.P(3) {
			args = append(args, "--")
		} else if len(text) > 0 && text[0] == '-' {
			args = append(args, "--")
		}
		if !r.P(3) {
			args = append(args, string(text))
			if r.P(5) {
				args = append(args, "more", "--circle")
			}
		}
		if r.P(60) && !bad {
			run.Files[out] = &FSpec{Fill: Pick(r, 1, 100, 100000)}
		}
		if r.P(25) {
			d := genDiskFault(r)
			f := fault(d.Op, out, d.Nth, 0, d.Err, d.Times)
			if f.Nth == 0 {
				f.Nth = 1
			}
			if d.Op == "write" && r.P(60) {
				f.Nth, f.At = 0, int64(r.N(3000))
			}
			run.Faults = append(run.Faults, f)
		}
		if r.P(8) {
			run.Sched.KillAt = uint64(500 + r.N(3000000))
		}
		run.Term = &TSpec{W: 300, H: 200, AutoKey: true}
		if terminal {
			for k := 0; k < r.N(3); k++ {
				run.Term.Events = append(run.Term.Events, TEv{K: Pick(r, "none", "mouse", "resize"), W: 300, H: 200})
			}
			switch r.N(6) {
			case 0:
				run.Term.InitErr = "ENOENT"
			case 1:
				run.Term.FlushErr, run.Term.FlushNth = "EIO", 1
			}
		}
		if w := WantOf(&Req{Text: text, New: true}); w.MustWork {
			run.Setup = newRead(0, &Req{Text: text, New: true})
		}
		if r.P(10) {
			run.Env = map[string]string{"QRCODE_DEBUG": "1"}
		}
		run.Clients = [][]*Op{{{K: "cli", Args: args}}}
		runs = append(runs, run)
	}
	return runs
}

func checkCLI(h *Hist, st *State) []Viol {
	var vs []Viol
	remember(h, st)
	if f := h.Res.Failure; f != nil {
		return append(vs, viol("result", "run %s ends in %s", h.Run.Tag, h.failure()))
	}
	after := h.W.Snapshot()
	for _, r := range h.Ops {
		if r.Op.K != "cli" {
			continue
		}
		w := parseCLI(r.Op.Args)
		line := fmt.Sprintf("qrcode %q", r.Op.Args)
		if len(line) > 300 {
			line = line[:300] + "..."
		}
		outp := h.W.Abs(w.output)
		mayWrite := !w.terminal && !w.bad && !w.help
		if w.weird {
			st.Count["command lines not judged"]++
			continue
		}
		want := WantOf(&Req{Text: []byte(w.text), New: true})
		if want.MustFail {
			mayWrite = false
		}
		var names []string
		for p := range after {
			names = append(names, p)
		}
		for p := range r.FilesBefore {
			if _, ok := after[p]; !ok {
				names = append(names, p)
			}
		}
		sort.Strings(names)
		for _, p := range names {
			b, was := r.FilesBefore[p]
			a, is := after[p]
			if (was != is || a != b) && !(p == outp && mayWrite) {
				vs = append(vs, viol("touched", "%s was changed by %s", p, line))
			}
		}
		if r.Killed || !r.Done {
			st.Count["killed"]++
			continue
		}
		st.Count[fmt.Sprint("exit ", r.Exit)]++
		said := r.RealOut || strings.TrimSpace(strings.Join(r.Outs, "")) != ""
		if r.Exit != 0 && !said {
			vs = append(vs, viol("silent", "exit status %d without a message: %s", r.Exit, line))
		}
		if r.Panic != "" {
			vs = append(vs, viol("panic", "panic %q: %s", r.Panic, line))
		}
		if w.help && !w.bad {
			continue
		}
		refused := h.W.RefusedOn(w.output, "open", "create", "write", "sync", "truncate") > 0
		closed := h.W.RefusedOn(w.output, "close") > 0
		t := h.Term
		switch {
		case w.bad:
			if r.Exit == 0 {
				vs = append(vs, viol("accepted", "exit status 0 for %s", line))
			}
			continue
		case want.MustFail:
			if r.Exit == 0 {
				vs = append(vs, viol("accepted", "exit status 0 although %s: %s", want.WhyFail, line))
			}
			continue
		case w.terminal:
			broken := t.InitErr != "" || t.FlushFails > 0
			if broken && r.Exit == 0 {
				vs = append(vs, viol("accepted", "exit status 0 although the terminal failed: %s", line))
			}
			if !broken && want.MustWork && r.Exit != 0 {
				vs = append(vs, viol("refused", "exit status %d (%q): %s", r.Exit, r.Outs, line))
			}
			if r.Exit == 0 {
				if bm := h.bmOfText(w.text, st); bm != nil {
					if m := CheckTerm(bm, t.Front, t.BW, t.BH); m != "" {
						vs = append(vs, viol("picture", "%s: %s", m, line))
					}
				}
				if t.Closes != 1 {
					vs = append(vs, viol("closes", "the terminal was closed %d times: %s", t.Closes, line))
				}
			}
			continue
		case refused || h.badPath(w.output):
			if r.Exit == 0 {
				vs = append(vs, viol("accepted", "exit status 0 although %s could not be written: %s", w.output, line))
			}
			continue
		}
		if r.Exit != 0 {
			if want.MustWork && !closed {
				vs = append(vs, viol("refused", "exit status %d (%q): %s", r.Exit, r.Outs, line))
			}
			continue
		}
		data, ok := after[outp]
		if !ok {
			vs = append(vs, viol("picture", "exit status 0, but there is no %s: %s", w.output, line))
			continue
		}
		enc := "png"
		switch filepath.Ext(w.output) {
		case ".png":
		case ".jpg", ".jpeg":
			enc = "jpeg"
		default:
			if !strings.HasPrefix(data, "\x89PNG") {
				enc = "jpeg"
			}
		}
		opts := []IOpt{{K: enc}, {K: "width", I: []int{w.block}}, {K: "border", I: w.borders[:]}}
		if w.circle {
			opts = append(opts, IOpt{K: "circle"})
		}
		if w.transp {
			opts = append(opts, IOpt{K: "bgt"})
		}
		if w.halftone != "" {
			o := IOpt{K: "worldimg", S: "halftone", F2: w.halftone}
			if d, ok := r.FilesBefore[h.W.Abs(w.halftone)]; ok {
				o.img = readImage(h.W, &o, []byte(d), h.Run.Faults)
				if f := h.Run.Files[w.halftone]; f != nil && f.Img != nil && f.Trunc == 0 && f.Flip == nil {
					o.M = f.Img
				}
			}
			opts = append(opts, o)
		}
		eff := w.block
		if eff == 0 {
			eff = 20
		}
		bm := h.bmOfText(w.text, st)
		switch {
		case bm == nil:
		case judgeable(cfgOf(opts)):
			st.Count["pictures judged"]++
			if m := CheckStd(cfgOf(opts), bm, []byte(data)); m != "" {
				vs = append(vs, viol("picture", "%s: %s", m, line))
			}
		default:
			st.Count["pictures measured"]++
			img, kind, err := image.Decode(strings.NewReader(data))
			n := len(bm)*eff + w.borders[1] + w.borders[3]
			m := len(bm)*eff + w.borders[0] + w.borders[2]
			if err != nil || kind != enc || img.Bounds().Dx() != n || img.Bounds().Dy() != m {
				vs = append(vs, viol("picture", "%s is not a %s picture of %dx%d pixels (%s, %v): %s", w.output, enc, n, m, kind, err, line))
			}
		}
	}
	return vs
}

// bmOfText is the symbol of a text encoded with the defaults.
func (h *Hist) bmOfText(text string, st *State) [][]bool {
	q := &Req{Text: []byte(text), New: true}
	if o := st.Outcome[q.Key()]; strings.HasPrefix(o, "sym:") {
		bm := Unpack(o[4:])
		if CheckSymbol(q, bm) == "" {
			return bm
		}
	}
	return nil
}

var jsKeys = []string{"encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor", "outputQrWidth", "outputCircleShape", "outputImageEncoder", "outputMargin"}

func num(v int) JV     { return JV{T: "num", N: float64(v)} }
func jstr(s string) JV { return JV{T: "str", S: s} }
func jbool(b bool) JV  { return JV{T: "bool", B: b} }
func anyJV(r *RNG) JV {
	switch r.N(11) {
	case 0:
		return JV{T: "undef"}
	case 1:
		return JV{T: "null"}
	case 2:
		return jbool(r.P(50))
	case 3:
		return num(r.N(300) - 20)
	case 4:
		return JV{T: "num", N: Pick(r, 0.5, 1e9, -1e9, 3.99, 255.5, 1e-9)}
	case 5:
		return jstr(Pick(r, "", "x", "#fff", "#12345g", "png", "M", "L", "21"))
	case 6:
		return JV{T: "sym", S: "s"}
	case 7:
		return JV{T: "arr", A: []JV{num(1)}}
	case 8:
		return JV{T: "func"}
	case 9:
		return JV{T: "obj", O: map[string]JV{"encodeVersion": num(1)}}
	}
	return jstr("#" + strings.Repeat("0", r.N(9)))
}

// genJSArgs draws the arguments of one call.
func genJSArgs(r *RNG) []JV {
	if r.P(4) {
		return nil
	}
	q := genReq(r, 3)
	if r.P(12) {
		q = genBadReq(r)
	}
	// a JavaScript string is text
	if !validText(q.Text) || r.P(5) {
		q.Text = genText(r, Pick(r, "num", "alnum", "ascii", "kanji", "utf8", "url"), r.N(40))
	}
	args := []JV{jstr(string(q.Text))}
	if r.P(6) {
		args[0] = anyJV(r)
	}
	switch x := r.N(100); {
	case x < 15:
		return args
	case x < 22:
		v := anyJV(r)
		return append(args, v)
	}
	ver, mode, ec := 0, 0, ""
	for _, o := range q.Opts {
		switch o.K {
		case "ver":
			ver = o.V
		case "mode":
			mode = o.V
		case "ec":
			if o.V >= 1 && o.V <= 4 {
				ec = "LMQH"[o.V-1 : o.V]
			}
		}
	}
	if ver < 0 || ver > 40 {
		ver = 0
	}
	if mode < 0 || mode > 255 || r.P(4) {
		mode = Pick(r, 1, 2, 3, 260, 264, 272, 288, -252)
	}
	hex := func() string {
		return hexOf(r, genColor(r, 0, 255))
	}
	o := map[string]JV{
		"encodeVersion": num(ver), "encodeMode": num(mode), "encodeECLevel": jstr(ec),
		"outputBgColor": jstr(Pick(r, "", "", hex())), "outputBgTransparent": jbool(r.P(15)),
		"outputQrColor": jstr(Pick(r, "", "", hex())), "outputQrWidth": num(Pick(r, 0, 5, 10, 12, 1+r.N(24), 1+r.N(24), Pick(r, 0, 0, 0, 255, 256, 261, 300, -246))),
		"outputCircleShape": jbool(r.P(20)), "outputImageEncoder": jstr(Pick(r, "png", "png", "", "jpg", "jpeg")),
		"outputMargin": num(Pick(r, 0, 1, 20, r.N(80))),
	}
	if c := Pick(r, 0, 0, 0, 0, 0, 1, 2, 3, 4); c > 0 {
		for k := 0; k < c; k++ {
			key := jsKeys[r.N(len(jsKeys))]
			switch r.N(3) {
			case 0:
				delete(o, key)
			default:
				v := anyJV(r)
				if key == "outputMargin" && v.T == "num" && math.Abs(v.N) > 400 {
					v.N = 400
				}
				o[key] = v
			}
		}
	}
	ov := JV{T: "obj", O: o}
	if r.P(8) {
		ov.Throw = []string{jsKeys[r.N(len(jsKeys))]}
	}
	args = append(args, ov)
	if r.P(10) {
		args = append(args, anyJV(r))
	}
	return args
}

func validText(b []byte) bool {
	return strings.ToValidUTF8(string(b), "") == string(b)
}

// jsReq is the request a call stands for, if its arguments are of the
// documented types.
func jsReq(args []JV) *Req {
	if len(args) == 0 || args[0].T != "str" {
		return nil
	}
	q := &Req{Text: []byte(args[0].S)}
	o := jsOptions(args)
	if o == nil {
		return nil
	}
	if v := int(o["encodeVersion"].N); v != 0 {
		q.Opts = append(q.Opts, EOpt{"ver", v})
	}
	switch v := int(o["encodeMode"].N); v {
	case MNum, MAlnum, MByte, MKanji:
		q.Opts = append(q.Opts, EOpt{"mode", v})
	}
	if i := strings.Index("LMQH", o["encodeECLevel"].S); i >= 0 && len(o["encodeECLevel"].S) == 1 {
		q.Opts = append(q.Opts, EOpt{"ec", i + 1})
	}
	return q
}

// jsOptions gives the options of a call; nil if they are not as documented.
func jsOptions(args []JV) map[string]JV {
	if len(args) < 2 || args[1].T == "undef" || args[1].T == "null" || args[1].T == "" {
		return map[string]JV{"defaults": {}}
	}
	v := args[1]
	if v.T != "obj" || len(v.Throw) > 0 {
		return nil
	}
	for i, k := range jsKeys {
		x := v.O[k]
		switch i {
		case 0, 1, 6, 9:
			if x.T != "num" || x.N != math.Trunc(x.N) || x.N < 0 && i != 1 {
				return nil
			}
			if max := []float64{40, 1e9, 0, 0, 0, 0, 255, 0, 0, 400}[i]; x.N > max {
				return nil
			}
		case 2, 3, 5, 8:
			if x.T != "str" {
				return nil
			}
			if i == 3 || i == 5 {
				if _, ok := hexColor(x.S); !ok && x.S != "" {
					return nil
				}
			}
			if i == 2 && x.S != "" && (len(x.S) != 1 || !strings.Contains("LMQH", x.S)) {
				return nil
			}
			if i == 8 && x.S != "" && x.S != "png" && x.S != "jpg" && x.S != "jpeg" {
				return nil
			}
		default:
			if x.T != "bool" {
				return nil
			}
		}
	}
	return v.O
}

func checkJS(h *Hist, st *State) []Viol {
	var vs []Viol
	remember(h, st)
	if h.Res.Failure != nil {
		return append(vs, viol("dead", "the program ends in %s", h.failure()))
	}
	started := false
	for _, r := range h.Ops {
		if r.Op.K == "jsmain" {
			started = r.Done && r.Panic == "" && !r.Failed
			if !started && r.Done {
				vs = append(vs, viol("dead", "the function is not there: %s%s", r.Err, r.Panic))
			}
		}
	}
	for _, r := range h.Ops {
		if r.Op.K != "js" || !r.Done || !started {
			continue
		}
		what := fmt.Sprintf("call %d with %s", r.Idx, jsShow(r.Op.JS))
		if r.Panic != "" {
			vs = append(vs, viol("dead", "panic %q ends the program: %s", r.Panic, what))
			continue
		}
		j := r.JS
		if j == nil || !j.IsObject || j.Types["success"] != "boolean" || j.Types["error"] != "string" || j.Types["base64EncodedImage"] != "string" {
			vs = append(vs, viol("shape", "the result is not an object with success, error and base64EncodedImage: %s", what))
			continue
		}
		data, err := base64.StdEncoding.DecodeString(j.Image)
		switch {
		case j.Success && j.Error != "":
			vs = append(vs, viol("shape", "success with error %q: %s", j.Error, what))
		case j.Success && (err != nil || len(data) == 0):
			vs = append(vs, viol("shape", "success without an image (%v): %s", err, what))
		case !j.Success && j.Error == "":
			vs = append(vs, viol("shape", "failure without an error: %s", what))
		case !j.Success && j.Image != "":
			vs = append(vs, viol("shape", "failure with an image: %s", what))
		}
		if j.Success {
			st.Count["successful calls"]++
			if _, _, err := image.DecodeConfig(bytes.NewReader(data)); err != nil {
				vs = append(vs, viol("picture", "the image cannot be decoded (%v): %s", err, what))
				continue
			}
		} else {
			st.Count["failed calls"]++
		}
		if len(r.Op.JS) == 0 && j.Success {
			vs = append(vs, viol("accepted", "success without arguments"))
		}
		if len(r.Op.JS) > 0 && r.Op.JS[0].T != "str" && j.Success {
			vs = append(vs, viol("accepted", "success although the content is no string: %s", what))
		}
		if len(r.Op.JS) > 1 && j.Success {
			if w, ok := r.Op.JS[1].O["outputQrWidth"]; ok && w.T == "num" && r.Op.JS[1].T == "obj" && (w.N <= -1 || w.N >= 256) {
				vs = append(vs, viol("accepted", "success although the block width is out of range: %s", what))
			}
		}
		q := jsReq(r.Op.JS)
		if q == nil {
			continue
		}
		w := WantOf(q)
		switch {
		case w.MustFail && j.Success:
			vs = append(vs, viol("accepted", "success although %s: %s", w.WhyFail, what))
		case w.MustWork && !j.Success:
			vs = append(vs, viol("refused", "failure (%s): %s", j.Error, what))
		}
		if !j.Success {
			continue
		}
		o := st.Outcome[q.Key()]
		if !strings.HasPrefix(o, "sym:") {
			continue
		}
		bm := Unpack(o[4:])
		if m := CheckSymbol(q, bm); m != "" {
			vs = append(vs, viol("symbol", "%s: %s", m, what))
			continue
		}
		c := cfgOf(jsImgOpts(jsOptions(r.Op.JS), data))
		if judgeable(c) {
			st.Count["pictures judged"]++
			if m := CheckStd(c, bm, data); m != "" {
				vs = append(vs, viol("picture", "%s: %s", m, what))
			}
		} else {
			st.Count["pictures measured"]++
			cf, _, _ := image.DecodeConfig(bytes.NewReader(data))
			if n := len(bm)*c.bw + c.b[1] + c.b[3]; cf.Width != n || cf.Height != n {
				vs = append(vs, viol("picture", "the image has %dx%d pixels, want %d: %s", cf.Width, cf.Height, n, what))
			}
		}
	}
	return vs
}

func jsImgOpts(o map[string]JV, data []byte) []IOpt {
	enc := "jpeg"
	if strings.HasPrefix(string(data), "\x89PNG") {
		enc = "png"
	}
	var out []IOpt
	if _, ok := o["defaults"]; !ok {
		enc = "png"
		switch o["outputImageEncoder"].S {
		case "jpg", "jpeg":
			enc = "jpeg"
		}
		if s := o["outputBgColor"].S; s != "" {
			out = append(out, IOpt{K: "bghex", S: s})
		}
		if s := o["outputQrColor"].S; s != "" {
			out = append(out, IOpt{K: "fghex", S: s})
		}
		if o["outputBgTransparent"].B {
			out = append(out, IOpt{K: "bgt"})
		}
		if n := int(o["outputQrWidth"].N); n != 0 {
			out = append(out, IOpt{K: "width", I: []int{n}})
		}
		if o["outputCircleShape"].B {
			out = append(out, IOpt{K: "circle"})
		}
		if n := int(o["outputMargin"].N); n != 0 {
			out = append(out, IOpt{K: "border", I: []int{n}})
		}
	}
	return append(out, IOpt{K: enc})
}

func jsShow(a []JV) string {
	var s []string
	for _, v := range a {
		switch v.T {
		case "str":
			s = append(s, fmt.Sprintf("%q", clip(v.S)))
		case "num":
			s = append(s, fmt.Sprint(v.N))
		case "bool":
			s = append(s, fmt.Sprint(v.B))
		case "obj":
			var ks []string
			for k := range v.O {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var p []string
			for _, k := range ks {
				p = append(p, k+": "+jsShow([]JV{v.O[k]}))
			}
			if len(v.Throw) > 0 {
				p = append(p, fmt.Sprintf("throws on %v", v.Throw))
			}
			s = append(s, "{"+strings.Join(p, ", ")+"}")
		default:
			s = append(s, v.T)
		}
	}
	return strings.Join(s, ", ")
}

var _ = refqr.L
var _ = simtermbox.EventKey
