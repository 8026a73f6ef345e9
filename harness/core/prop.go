package core

import (
	"fmt"
	"sort"
	"strings"

	"verifharness/refqr"
	"verifsim/simos"
)

// Viol is a violation found in a run.
type Viol struct {
	Class string `json:"class"` // stable name of the kind of violation, used when minimising
	Msg   string `json:"msg"`
}

// State persists over the runs of one worker process.
type State struct {
	Outcome map[string]string // request key -> outcome
	Where   map[string]string
	Bytes   map[string]string // request+writer key -> output
	Learn   map[int]int
	Count   map[string]int
	Debug   bool
}

func NewState() *State {
	return &State{Outcome: map[string]string{}, Where: map[string]string{}, Bytes: map[string]string{}, Learn: map[int]int{}, Count: map[string]int{}}
}

// Prop is a property with its generator and its oracle.
type Prop struct {
	ID      string
	Race    bool
	Single  bool // every run is a process of its own
	Batches func(tier string) int
	Gen     func(r *RNG, batch int, tier string) []*Run
	Check   func(h *Hist, st *State) []Viol
	// NonTrivial says whether a run counts as non-trivial; by default it must
	// have been preempted or have met a fault.
	NonTrivial func(h *Hist) bool
	Rule       string
	Real       []string
	Stub       []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ByID finds a property.
func ByID(id string) *Prop { return props[id] }

// IDs lists the properties.
func IDs() []string {
	var out []string
	for k := range props {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func viol(class, f string, a ...any) Viol { return Viol{class, fmt.Sprintf(f, a...)} }

// tiers scales a number of batches.
func tiers(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// where describes an operation for messages.
func (r *Res) where() string {
	s := fmt.Sprintf("client %d op %d (%s", r.Client, r.Idx, r.Op.K)
	if r.Op.Req != nil {
		s += " " + r.Op.Req.String()
	}
	if r.Op.Wr != nil {
		s += " " + r.Op.Wr.String()
	}
	return s + ")"
}

func (w *WSpec) String() string {
	s := w.Kind
	if w.Path != "" {
		s += " " + w.Path
	}
	for _, o := range w.Opts {
		s += fmt.Sprintf(" %s%v%s%v", o.K, o.I, o.S, o.C)
	}
	if w.Pad != 0 || w.Block != 0 {
		s += fmt.Sprintf(" pad=%d block=%d", w.Pad, w.Block)
	}
	return s
}

// reqs finds the request whose symbol slot q holds for a client at op idx.
func (h *Hist) reqOf(r *Res) *Res {
	var best *Res
	for _, o := range h.Ops {
		if o.Op.K != "new" || o.Op.Q != r.Op.Q {
			continue
		}
		if o.Client == r.Client && o.Idx < r.Idx {
			best = o
		}
		if o.Client == -1 && o.Idx < len(h.Run.Setup) && (best == nil || best.Client == -1) && (r.Client >= 0 || o.Idx < r.Idx) {
			best = o
		}
	}
	return best
}

// outcomes lists what every request of the run came to.
type outcome struct {
	req *Req
	res *Res
	out string // sym:..., err, panic, none
	bm  [][]bool
}

func (h *Hist) outcomes() []outcome {
	var out []outcome
	for _, o := range h.Ops {
		if o.Op.K != "new" {
			continue
		}
		oc := outcome{req: o.Op.Req, res: o}
		switch {
		case !o.Done:
			oc.out = "none"
			if h.Res.Failure == nil {
				continue // killed with its process, or not reached
			}
		case o.Panic != "":
			oc.out = "panic"
		case o.Failed:
			oc.out = "err"
		case o.Nil:
			oc.out = "nil"
		default:
			// find the read which follows
			for _, p := range h.Ops {
				if p.Op.K == "read" && p.Done && p.Panic == "" && p.Op.Q == o.Op.Q && h.reqOf(p) == o {
					oc.out = "sym:" + p.BM
					oc.bm = Unpack(p.BM)
					break
				}
			}
			if oc.out == "" {
				oc.out = "ok"
			}
		}
		out = append(out, oc)
	}
	return out
}

// failure describes a world failure.
func (h *Hist) failure() string {
	if f := h.Res.Failure; f != nil {
		return f.Kind + ": " + f.Msg
	}
	return ""
}

func short(out string) string {
	if strings.HasPrefix(out, "sym:") {
		bm := Unpack(out[4:])
		if s, err := refqr.Read(bm, false); err == nil {
			return fmt.Sprintf("symbol v%d-%c mask %d %x", s.Ver, "LMQH"[s.EC], s.Mask, hashStr(out)&0xffffff)
		}
		return fmt.Sprintf("unreadable symbol %dx%d %x", len(bm), len(bm), hashStr(out)&0xffffff)
	}
	return out
}

// sameOutcomes checks that equal requests have equal outcomes.
func sameOutcomes(h *Hist, st *State, class string) []Viol {
	var vs []Viol
	for _, oc := range h.outcomes() {
		if oc.out == "ok" {
			continue
		}
		k := oc.req.Key()
		st.Count["requests compared"]++
		old, ok := st.Outcome[k]
		if !ok {
			st.Outcome[k] = oc.out
			st.Where[k] = "run " + h.Run.Tag + " " + oc.res.where()
			continue
		}
		if old != oc.out {
			vs = append(vs, viol(class, "equal requests, different results: %s in %s; %s in run %s %s %s",
				short(old), st.Where[k], short(oc.out), h.Run.Tag, oc.res.where(), h.failure()))
		}
	}
	return vs
}

// newRead makes the operations which build a symbol and look at it.
func newRead(q int, r *Req) []*Op {
	return []*Op{{K: "new", Q: q, Req: r}, {K: "read", Q: q}}
}

func (h *Hist) firedTotal() int {
	n := 0
	for _, v := range h.W.Fired {
		n += v
	}
	return n
}

var errnos = []string{"ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "EROFS", "EINTR", "EAGAIN", "EPIPE"}

func fault(op, path string, nth int, at int64, err string, times int) *simos.Fault {
	return &simos.Fault{Op: op, Path: path, Nth: nth, At: at, Err: err, Times: times}
}
