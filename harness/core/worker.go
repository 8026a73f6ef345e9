package core

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"verifsim/sim"
)

// RunStat is what a worker reports about one run.
type RunStat struct {
	Tag      string         `json:"tag,omitempty"`
	Hash     uint64         `json:"hash"`
	Digest   uint64         `json:"digest"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Tasks    int            `json:"tasks"`
	SimTime  float64        `json:"sim_s"`
	Fired    map[string]int `json:"fired,omitempty"`
	Policy   string         `json:"policy"`
	Killed   bool           `json:"killed,omitempty"`
	Trivial  bool           `json:"trivial,omitempty"`
	Devs     []sim.Dev      `json:"devs,omitempty"`
	DevsLost bool           `json:"devs_lost,omitempty"`
}

// FoundViol is a violation together with the run which showed it.
type FoundViol struct {
	Run   int    `json:"run"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// BatchResult is what a worker reports.
type BatchResult struct {
	Batch  int            `json:"batch"`
	Runs   []RunStat      `json:"runs"`
	Count  map[string]int `json:"count"`
	Viols  []FoundViol    `json:"viols,omitempty"`
	Sample string         `json:"sample,omitempty"`
	Done   bool           `json:"done"`
	Err    string         `json:"err,omitempty"`
}

// Digest combines the digests of all runs.
func (b *BatchResult) Digest() string {
	h := uint64(1469598103934665603)
	for _, r := range b.Runs {
		h = (h ^ r.Digest) * 1099511628211
		h = (h ^ r.Hash) * 1099511628211
	}
	return fmt.Sprintf("%016x", h)
}

// Phase announces what the worker is about to do.
var Phase = func(string) {}

// RunPlan executes the runs of a plan in this process and judges them.
func RunPlan(p *Plan, wantDevs bool, out func(*BatchResult)) {
	pr := ByID(p.Prop)
	if pr == nil {
		panic("no property " + p.Prop)
	}
	res := &BatchResult{Batch: p.Batch}
	st := NewState()
	for i, run := range p.Runs {
		Phase(fmt.Sprint("exec ", i))
		h := Exec(run)
		Phase(fmt.Sprint("check ", i))
		rs := RunStat{Tag: run.Tag, Hash: h.Res.Hash, Digest: h.Digest(), Steps: h.Res.Steps, Switches: h.Res.Switches,
			Preempts: h.Res.Preempts, Tasks: h.Res.Tasks, SimTime: float64(h.Res.SimTime) / 1e9, Fired: h.W.Fired,
			Policy: run.Sched.Policy, Killed: h.Res.Killed, Trivial: pr.trivial(h)}
		if wantDevs {
			rs.Devs, rs.DevsLost = h.Res.Devs, h.Res.DevsLost
		}
		vs := append(pr.Check(h, st), h.looks()...)
		res.Runs = append(res.Runs, rs)
		for _, v := range vs {
			res.Viols = append(res.Viols, FoundViol{i, v.Class, v.Msg})
		}
		if res.Sample == "" && !rs.Trivial {
			res.Sample = h.sample()
		}
		if len(vs) > 0 {
			break
		}
		if f := h.Res.Failure; f != nil {
			// tasks of a failed world may be in any state: later runs of this
			// process would not be trustworthy
			st.Count["worlds which failed ("+f.Kind+")"]++
			break
		}
	}
	res.Count = st.Count
	res.Done = true
	out(res)
}

// looks: no look at what the library delivered fails.
func (h *Hist) looks() []Viol {
	var vs []Viol
	for _, r := range h.Ops {
		if !r.Done {
			continue
		}
		switch r.Op.K {
		case "read", "mutate", "dim", "attr", "mkopts":
			if r.Panic != "" || r.Failed {
				vs = append(vs, viol("look", "looking at what was delivered fails (%s%s): client %d op %d (%s)", r.Panic, r.Err, r.Client, r.Idx, r.Op.K))
			}
		}
	}
	return vs
}

func (pr *Prop) trivial(h *Hist) bool {
	if pr.NonTrivial != nil {
		return !pr.NonTrivial(h)
	}
	return h.Res.Preempts == 0 && len(h.W.Fired) == 0
}

// sample writes a run out for the evidence file.
func (h *Hist) sample() string {
	b, _ := json.Marshal(h.Run)
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	var f []string
	for k, v := range h.W.Fired {
		f = append(f, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(f)
	return fmt.Sprintf("steps=%d switches=%d preempts=%d tasks=%d hash=%016x fired=%v run=%s", h.Res.Steps, h.Res.Switches, h.Res.Preempts, h.Res.Tasks, h.Res.Hash, f, s)
}

// GenPlan makes the plan of a batch.
func GenPlan(id string, seed uint64, batch int, tier string) *Plan {
	pr := ByID(id)
	if pr == nil {
		panic("no property " + id)
	}
	r := NewRNG(seed, hashStr(id), uint64(batch)+1)
	p := &Plan{Prop: id, Seed: seed, Batch: batch, Race: pr.Race, Runs: pr.Gen(r, batch, tier)}
	// some runs continue in the process of the run before, some begin a new one
	fr := NewRNG(seed, hashStr(id), uint64(batch)+1, 0x66726573)
	pc := Pick(fr, 10, 50, 90, 100)
	for i, run := range p.Runs {
		run.Fresh = i == 0 || fr.P(pc)
	}
	// in some batches requests share option values, or whole lists of them
	if fr.P(50) {
		pc := Pick(fr, 30, 70, 100)
		mark := func(ops []*Op) {
			for _, op := range ops {
				if op.Req != nil && len(op.Req.Opts) > 0 && fr.P(pc) {
					op.Req.Share = 1 + fr.N(2)
				}
			}
		}
		for _, run := range p.Runs {
			mark(run.Setup)
			for _, ops := range run.Clients {
				mark(ops)
			}
			mark(run.Final)
		}
	}
	// a batch executes what a replay file can hold
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// ReadPlan reads a plan file.
func ReadPlan(path string) (*Plan, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	p := &Plan{}
	return p, json.Unmarshal(b, p)
}
